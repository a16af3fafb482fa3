"""Verification condition generator: a symbolic interpreter for the Python /
numpy subset used by the code under contract.

Straight-line code is executed symbolically along every feasible path.  Loops
of unknown length are summarised for an arbitrary iteration: the carried
variables get their strongest inductive description (unchanged, last value,
running sum, flag, element-wise map, append) which is emitted as the loop
invariant with initiation and preservation obligations; early exits become
"there is a first iteration that exits / no earlier iteration exits".
"""
import ast
import itertools
import z3
from fractions import Fraction
from .values import *
from . import prover
from .prover import SUMS, check_sat, QUICK_RLIMIT, has_quant, free_consts
from .repo import Repo

MAX_PATHS = 3000
UNROLL = 64


class Path:
    def __init__(self, pcs, kind, value, env, heap):
        self.pcs, self.kind, self.value = pcs, kind, value
        self.env, self.heap = env, heap


class Oblig:
    def __init__(self, name, hyps, goal, loc, kind):
        self.name, self.hyps, self.goal = name, hyps, goal
        self.loc, self.kind = loc, kind


class Tmpl:
    "value abstracted over placeholders"
    def __init__(self, term, holes):
        self.term, self.holes = term, holes

    def at(self, *vals):
        if not is_z3(self.term):
            return self.term
        return simp(z3.substitute(self.term, *[
            (h, Z(v)) for h, v in zip(self.holes, vals)]))


class Interp:
    def __init__(self, repo=None, contracts=None, invariants=None):
        self.repo = repo or Repo()
        self.contracts = contracts or {}     # (mod, name) -> modular spec
        self.assumed_used = set()
        self.invariants = invariants or {}
        self.pc = []
        self.heap = {}
        self.dec, self.pos, self.work = [], 0, None
        self.trail = []
        self.ctr = 0
        self.nofork = 0
        self.guards = []
        self.obligs = []
        self.collect = True
        self.depth = 0
        self.cache = {}
        self.quick_solver = None
        self.ent_cache = {}
        self.def_ids = {}
        self.functions_used = set()
        self.spec_mode = 0
        self.probing = 0        # inside hasattr / getattr with default
        self.partial = False    # records may lack attributes of the class
        self.loc = ''
        self.stats = {'paths': 0, 'loops': 0}

    # ------------------------------------------------------------ utilities
    def fresh(self, name, sort):
        self.ctr += 1
        return z3.Const('%s!%d' % (name, self.ctr), sort)

    def fresh_fn(self, name, *sorts):
        self.ctr += 1
        return z3.Function('%s!%d' % (name, self.ctr), *sorts)

    def alloc(self, content):
        self.ctr += 1
        r = Ref(self.ctr)
        self.heap[r.id] = content
        return r

    def assume(self, fact):
        if fact is True:
            return
        if self.guards:
            fact = Implies(And(*self.guards), fact)
            if fact is True:
                return
        if fact is False:
            raise PathEnd()
        self.pc.append(fact)

    def qf_pc(self):
        return [p for p in self.pc + self.guards if not has_quant(p)] \
            + list(self.def_ids.values())

    def feasible(self, extra):
        key = (tuple(p.get_id() for p in self.pc if is_z3(p)),
               tuple(g.get_id() for g in self.guards if is_z3(g)),
               extra.get_id())
        r = self.ent_cache.get(key)
        if r is None:
            r = check_sat(self.qf_pc() + [extra], QUICK_RLIMIT)[0]
            self.ent_cache[key] = (r, extra, list(self.pc),
                                   list(self.guards))
        else:
            r = r[0]
        return r != 'unsat'

    def entails(self, c):
        if isinstance(c, bool):
            return c
        return not self.feasible(z3.simplify(z3.Not(c)))

    def branch(self, cond):
        cond = truth(cond)
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if self.nofork:
            if self.entails(cond):
                return True
            if self.entails(Not(cond)):
                return False
            raise NeedFork()
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d[1]:
                self.pc.append(cond if d[0] else simp(Not(cond)))
            return d[0]
        t = self.feasible(cond)
        f = self.feasible(simp(Not(cond)))
        if not t and not f:
            raise PathEnd()
        if t and f:
            self.work.append(self.dec[:self.pos] + [(False, True)])
            d = (True, True)
        elif t:
            d = (True, False)
        else:
            d = (False, False)
        self.dec = self.dec[:self.pos] + [d]
        self.pos += 1
        self.trail.append(d)
        if d[1]:
            self.pc.append(cond if d[0] else simp(Not(cond)))
        return d[0]

    def choose_n(self, n):
        "fork over n unconditional alternatives"
        for k in range(n - 1):
            if self.pos < len(self.dec):
                d = self.dec[self.pos]
                self.pos += 1
            else:
                self.work.append(self.dec[:self.pos] + [(False, True)])
                d = (True, True)
                self.dec = self.dec[:self.pos] + [d]
                self.pos += 1
            if d[0]:
                return k
        return n - 1

    def oblige(self, kind, goal, what=''):
        if goal is True:
            return
        if self.spec_mode:
            return
        if not isinstance(goal, bool) and self.entails(goal):
            # still recorded: discharged again, completely, by the prover
            pass
        if self.collect:
            self.obligs.append(Oblig(
                '%s@%s %s' % (kind, self.loc, what),
                list(self.pc) + list(self.guards), goal, self.loc, kind))
        # afterwards the access has happened, so the condition held
        if goal is not False:
            self.assume(goal)
        else:
            raise PathEnd()

    def explore(self, thunk, limit=MAX_PATHS):
        """run thunk on every feasible path from the current state; returns a
        list of Path; state restored"""
        entry = (list(self.pc), dict(self.heap), self.ctr)
        saved = (self.dec, self.pos, self.work, self.nofork, self.guards)
        self.nofork, self.guards = 0, list(self.guards)
        base_guards = list(self.guards)
        # guards of the context become part of the path condition
        work = [[]]
        out = []
        maxctr = entry[2]
        try:
            while work:
                dec = work.pop()
                self.dec, self.pos, self.work = dec, 0, work
                self.pc = list(entry[0]) + [g for g in base_guards]
                self.guards = []
                n0 = len(self.pc)
                self.heap = dict(entry[1])
                self.ctr = entry[2]
                try:
                    kind, val, env = thunk()
                except PathEnd:
                    maxctr = max(maxctr, self.ctr)
                    continue
                maxctr = max(maxctr, self.ctr)
                out.append(Path(self.pc[n0:], kind, val, env, dict(self.heap)))
                self.stats['paths'] += 1
                if len(out) + len(work) > limit:
                    raise Unsupported('too many paths')
        finally:
            maxctr = max(maxctr, self.ctr)
            self.pc, self.heap = list(entry[0]), dict(entry[1])
            self.ctr = maxctr
            self.dec, self.pos, self.work, self.nofork, self.guards = saved
        return out

    # ---------------------------------------------------------- array access
    def content(self, v):
        if isinstance(v, Ref):
            return self.heap[v.id]
        if isinstance(v, ObjVal):
            return v
        return None

    def is_arr(self, v):
        if isinstance(v, (ArrVal, View, ElemRef)):
            return True
        return isinstance(v, Ref) and isinstance(self.heap[v.id],
                                                 (ArrVal, ListVal))

    def is_list(self, v):
        c = self.content(v)
        return isinstance(c, ListVal) or (
            isinstance(c, ArrVal) and c.is_list) or (
                isinstance(v, ArrVal) and v.is_list)

    def arr(self, v):
        "snapshot of an array-like value"
        if isinstance(v, ArrVal):
            return v
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, ArrVal):
                return c
            if isinstance(c, ListVal):
                return self.list_arr(c)
            raise Unsupported('not an array')
        if isinstance(v, View):
            base = self.arr(v.ref)
            return ArrVal(v.shape, lambda ix, b=base, m=v.imap: b.get(m(ix)),
                          base.kind)
        if isinstance(v, ElemRef):
            x = self.arr(v.ref).get((v.index,))
            return self.arr(x)
        if isinstance(v, tuple):
            return self.list_arr(ListVal(v))
        if isinstance(v, RangeVal):
            return ArrVal((v.n,), lambda ix, r=v: add(
                r.lo, mul(ix[0], r.step)), 'int')
        if isinstance(v, IterVal):
            return ArrVal((v.n,), lambda ix, r=v: r.elem(ix[0]), 'obj')
        raise Unsupported('not an array: %r' % (type(v),))

    def list_arr(self, c):
        items = list(c.items)
        if items and all(self.is_arr(x) for x in items):
            subs = [self.arr(x) for x in items]
            return const_array(subs, 'obj', True)
        return const_array(items, None, True)

    def seq_len(self, v):
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, str):
            return len(v)
        c = self.content(v)
        if isinstance(c, ListVal):
            return len(c.items)
        if isinstance(c, DictVal):
            if c.fn is not None:
                raise Unsupported('len of symbolic dict')
            return len(c.items)
        if isinstance(v, RangeVal):
            return v.n
        if isinstance(v, IterVal):
            return v.n
        return self.arr(v).shape[0]

    def norm_index(self, i, n, what='index'):
        "python index -> nonnegative index, with a safety obligation"
        i = num(i)
        if kind_of(i) == 'real':
            if not is_z3(i) and i.denominator == 1:
                i = int(i)
            elif self.spec_mode == 0:
                raise Unsupported('non integer index')
        if not is_z3(i) and not is_z3(n):
            if -n <= i < n:
                return i if i >= 0 else i + n
            if self.spec_mode:
                return i
            raise PyRaise('IndexError', what)
        self.oblige('in-bounds', And(cmp('<=', neg(n), i), cmp('<', i, n)),
                    what)
        if not is_z3(i):
            return i if i >= 0 else add(i, n)
        if self.entails(i >= 0):
            return i
        if self.entails(i < 0):
            return add(i, n)
        return ite(simp(i < 0), add(i, n), i)

    def sel(self, cond, a, b):
        "conditional scalar, simplified with the path condition"
        cond = truth(cond)
        if isinstance(cond, bool):
            return a if cond else b
        if self.entails(cond):
            return a
        if self.entails(simp(Not(cond))):
            return b
        return ite(cond, a, b)

    def slice_bounds(self, sl, n):
        "ast/py slice (lo, hi, step values) -> (start, count, step)"
        lo, hi, st = sl
        st = 1 if st is None else num(st)
        if is_z3(st) or st == 0:
            raise Unsupported('symbolic slice step')
        if st > 0:
            def clamp(x, dflt):
                if x is None:
                    return dflt
                x = num(x)
                if kind_of(x) == 'real':
                    raise Unsupported('real slice bound')
                if not is_z3(x) and x >= 0:
                    return self.sel(cmp('<=', x, n), x, n)
                if not is_z3(x):
                    y = add(x, n)
                    return self.sel(cmp('>=', y, 0), y, 0)
                y = self.sel(cmp('<', x, 0),
                             self.sel(cmp('>=', add(x, n), 0), add(x, n), 0),
                             self.sel(cmp('<=', x, n), x, n))
                return y
            a, b = clamp(lo, 0), clamp(hi, n)
            ln = self.sel(cmp('>=', b, a), sub(b, a), 0)
            if st != 1:
                ln = floordiv(add(ln, st - 1), st)
            return a, ln, st
        if st == -1 and lo is None and hi is None:
            return sub(n, 1), n, -1
        if st < 0:
            def clampn(x, dflt):
                if x is None:
                    return dflt
                x = num(x)
                y = self.sel(cmp('<', x, 0), add(x, n), x)
                y = self.sel(cmp('<', y, -1), -1, y)
                return self.sel(cmp('>', y, sub(n, 1)), sub(n, 1), y)
            a, b = clampn(lo, sub(n, 1)), clampn(hi, -1)
            ln = self.sel(cmp('>=', a, b), sub(a, b), 0)
            if st != -1:
                ln = floordiv(add(ln, -st - 1), -st)
            return a, ln, st
        raise Unsupported('slice step')

    def root_view(self, v):
        "(ref, shape, imap) for a writable array value"
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, ArrVal):
                return v, c.shape, (lambda ix: ix)
        if isinstance(v, View):
            return v.ref, v.shape, v.imap
        raise Unsupported('write through this value')

    def index_parts(self, v, idx):
        """apply a basic/fancy index; returns ('scalar', ixfun), ('view',
        shape, imap) or ('copy', ArrVal) relative to array v"""
        a = self.arr(v)
        if not isinstance(idx, tuple):
            idx = (idx,)
        # boolean mask / integer array
        if len(idx) == 1 and self.is_arr(idx[0]):
            m = self.arr(idx[0])
            if m.kind == 'bool':
                return ('mask', m)
            if m.ndim == 1:
                n = a.shape[0]
                sh = (m.shape[0],) + a.shape[1:]

                def g(ix, a=a, m=m, n=n):
                    j = m.get((ix[0],))
                    j = ite(cmp('<', j, 0), add(j, n), j)
                    return a.get((j,) + tuple(ix[1:]))
                if not self.spec_mode:
                    k = self.fresh('ix', I)
                    e = num(m.get((k,)))
                    self.oblige('in-bounds', self.forall_term(k, Implies(
                        And(cmp('>=', k, 0), cmp('<', k, m.shape[0])),
                        And(cmp('<=', neg(n), e), cmp('<', e, n)))),
                        'fancy index')
                return ('fancy', ArrVal(sh, g, a.kind), m)
            raise Unsupported('fancy index')
        specs = []     # per source dim
        if len(idx) > a.ndim:
            raise PyRaise('IndexError', 'too many indices')
        fancy = None
        for d, ix in enumerate(idx):
            n = a.shape[d]
            if isinstance(ix, slice):
                st, ln, step = self.slice_bounds(
                    (ix.start, ix.stop, ix.step), n)
                specs.append(('s', st, ln, step))
            elif is_scalar(ix) and kind_of(ix) != 'bool':
                specs.append(('i', self.norm_index(ix, n)))
            elif self.is_arr(ix):
                m = self.arr(ix)
                if m.kind == 'bool' or m.ndim != 1 or fancy is not None:
                    raise Unsupported('fancy index in tuple')
                fancy = d
                specs.append(('f', m))
            else:
                raise Unsupported('index of type %r' % (type(ix),))
        for d in range(len(idx), a.ndim):
            specs.append(('s', 0, a.shape[d], 1))
        shape = [s[2] if s[0] == 's' else s[1].shape[0]
                 for s in specs if s[0] in 'sf']

        def imap(ix, specs=specs):
            out, k = [], 0
            for s in specs:
                if s[0] == 'i':
                    out.append(s[1])
                elif s[0] == 'f':
                    out.append(s[1].get((ix[k],)))
                    k += 1
                else:
                    out.append(add(s[1], mul(ix[k], s[3])))
                    k += 1
            return tuple(out)
        if fancy is not None:
            return ('copy', ArrVal(shape, lambda ix: a.get(imap(ix)), a.kind))
        if not shape:
            return ('scalar', imap(()))
        return ('view', shape, imap)

    def getitem(self, v, idx):
        if isinstance(v, (tuple, str)):
            if isinstance(idx, slice):
                return v[slice(*[None if x is None else int(x) for x in (
                    idx.start, idx.stop, idx.step)])]
            if not is_z3(num(idx)):
                try:
                    return v[int(idx)]
                except IndexError:
                    raise PyRaise('IndexError')
            if isinstance(v, tuple):
                i = self.norm_index(idx, len(v))
                r = v[-1]
                for k in range(len(v) - 2, -1, -1):
                    r = ite(cmp('==', i, k), v[k], r)
                return r
            raise Unsupported('string index')
        c = self.content(v)
        if isinstance(c, DictVal):
            return self.dict_get(c, idx)
        if isinstance(c, ListVal):
            if isinstance(idx, slice):
                if any(is_z3(x) for x in (idx.start, idx.stop, idx.step)
                       if x is not None):
                    a = self.list_arr(c)
                    st, ln, step = self.slice_bounds(
                        (idx.start, idx.stop, idx.step), len(c.items))
                    return self.alloc(ArrVal(
                        (ln,), lambda ix: a.get((add(st, mul(
                            ix[0], step)),)), a.kind, True))
                return self.alloc(ListVal(c.items[slice(*[
                    None if x is None else int(x) for x in (
                        idx.start, idx.stop, idx.step)])]))
            if not is_scalar(idx):
                raise Unsupported('list index')
            if not is_z3(num(idx)):
                try:
                    return c.items[int(num(idx))]
                except IndexError:
                    if self.spec_mode:
                        raise Unsupported('spec index')
                    raise PyRaise('IndexError')
            i = self.norm_index(idx, len(c.items))
            items = c.items
            if items and self.is_arr(items[0]):
                if all(x == items[0] for x in items[1:]):
                    return items[0]
                return ElemRef(v, i)
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(cmp('==', i, k), items[k], r)
            return r
        if isinstance(v, RangeVal):
            v = self.arr(v)
        if isinstance(v, IterVal):
            return v.elem(self.norm_index(idx, v.n))
        if isinstance(v, Builtin) or isinstance(v, ObjVal):
            if isinstance(v, Builtin) and v.name == 'np.s_' and \
                    is_scalar(idx):
                return idx
            raise Unsupported('subscript of %r' % (v,))
        a = self.arr(v)
        if a.is_list and not isinstance(idx, slice):
            if isinstance(idx, tuple):
                raise PyRaise('TypeError', 'list indices')
            i = self.norm_index(idx, a.shape[0])
            x = a.get((i,))
            if isinstance(x, ArrVal):
                if isinstance(v, Ref):
                    return ElemRef(v, i)
                return x
            return x
        p = self.index_parts(v, idx)
        if p[0] == 'scalar':
            x = a.get(p[1])
            return x
        if p[0] == 'view':
            if a.is_list:
                return self.alloc(ArrVal(p[1], lambda ix: a.get(p[2](ix)),
                                         a.kind, True))
            if isinstance(v, Ref):
                return View(v, p[1], p[2])
            if isinstance(v, View):
                return View(v.ref, p[1], lambda ix, m=v.imap, q=p[2]: m(q(ix)))
            return ArrVal(p[1], lambda ix: a.get(p[2](ix)), a.kind)
        if p[0] == 'mask':
            return self.alloc(self.filter_arr(a, p[1]))
        return self.alloc(p[1])

    def filter_arr(self, a, m):
        "a[m] for a boolean mask over the first dimension"
        if m.ndim != 1:
            raise Unsupported('2-d mask')
        n = m.shape[0]
        if not self.spec_mode:
            self.oblige('shape', cmp('==', n, a.shape[0]), 'mask size')
        if not is_z3(n) and n <= 12:
            vals = [truth(m.get((k,))) for k in range(n)]
            if all(isinstance(x, bool) for x in vals) and a.ndim == 1:
                return const_array([a.get((k,)) for k in range(n)
                                    if vals[k]], a.kind)
        k = self.fresh('fk', I)
        c = truth(m.get((k,)))
        cnt, sel = self.filter_sel(k, c, n)
        return ArrVal((cnt,) + a.shape[1:], lambda ix: a.get(
            (sel(ix[0]),) + tuple(ix[1:])), a.kind)

    def define(self, f):
        "a formula that holds by definition of the symbols it mentions"
        if not has_quant(f) and f.get_id() not in self.def_ids:
            self.def_ids[f.get_id()] = f

    def filter_sel(self, k, c, n):
        """increasing enumeration of { 0<=k<n : c(k) }: (count, sel)"""
        if isinstance(c, bool):
            return (n, lambda j: j) if c else (0, lambda j: 0)
        one = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        cnt = SUMS.make(k, one, 0, n)
        params = [x for x in free_consts(c) if not x.eq(k)]
        subs = [(p, z3.Const('$p%d_%s' % (q, p.sort().name()), p.sort()))
                for q, p in enumerate(params)]
        bv = z3.Int('$bv')
        canon = z3.simplify(z3.substitute(c, *(subs + [(k, bv)])))
        fn = prover.sel_symbol(canon, [q for _, q in subs], bv, z3.substitute(
            Z(n), *subs) if subs else Z(n))

        def sel(j):
            e = fn(*(params + [Z(j)]))
            rank = SUMS.make(k, one, 0, e)
            self.define(z3.Implies(
                z3.And(Z(j) >= 0, Z(j) < Z(cnt)),
                z3.And(e >= 0, e < Z(n), z3.substitute(c, (k, e)),
                       Z(rank) == Z(j))))
            return e
        self.define(Z(cmp('>=', cnt, 0)))
        self.define(Z(cmp('<=', cnt, maxv(n, 0))))
        return cnt, sel

    def dict_get(self, c, key):
        if not is_z3(key):
            k = norm_const(key)
            if k in c.items:
                return c.items[k]
            if c.fn is None:
                raise PyRaise('KeyError')
        if c.fn is not None:
            has, get = c.fn
            if not self.spec_mode:
                self.oblige('key-present', has(key), 'dict key')
            return get(key)
        ks = list(c.items)
        if not ks:
            raise PyRaise('KeyError')
        if not self.spec_mode:
            self.oblige('key-present', Or(*[cmp('==', key, k) for k in ks]),
                        'dict key')
        r = c.items[ks[-1]]
        for k in ks[:-1][::-1]:
            r = ite(cmp('==', key, k), c.items[k], r)
        return r

    def setitem(self, v, idx, val):
        c = self.content(v)
        if isinstance(c, DictVal):
            if is_z3(idx):
                raise Unsupported('symbolic dict store')
            d = dict(c.items)
            d[norm_const(idx)] = val
            self.heap[v.id] = DictVal(d, c.fn)
            return
        if isinstance(c, ListVal):
            if not is_scalar(idx):
                raise Unsupported('list slice store')
            i = num(idx)
            if not is_z3(i):
                items = list(c.items)
                try:
                    items[int(i)] = val
                except IndexError:
                    raise PyRaise('IndexError')
                self.heap[v.id] = ListVal(items)
                return
            self.heap[v.id] = self.list_arr(c)
            c = self.heap[v.id]
        if isinstance(c, ArrVal) and c.is_list:
            i = self.norm_index(idx, c.shape[0], 'list store')
            nv = self.arr(val) if self.is_arr(val) else val
            self.heap[v.id] = self.store_list(c, i, nv)
            return
        if isinstance(v, ElemRef):
            # element array of a list: functional update of the element
            lst = self.arr(v.ref)
            old = lst.get((v.index,))
            tmp = self.alloc(old)
            self.setitem(tmp, idx, val)
            new = self.heap[tmp.id]
            self.heap[v.ref.id] = self.store_list(lst, v.index, new)
            return
        if not self.is_arr(v):
            raise Unsupported('store into %r' % (type(v),))
        ref, shape, vm = self.root_view(v)
        base = self.heap[ref.id]
        p = self.index_parts(v, idx)
        if p[0] == 'scalar':
            tgt = vm(p[1])
            x = self.cast(val, base.kind)
            self.heap[ref.id] = self.store_at(base, tgt, x)
            return
        if p[0] == 'view':
            self.store_view(ref, p[1], lambda ix: vm(p[2](ix)), val)
            return
        if p[0] == 'mask':
            m = p[1]
            if not is_scalar(val):
                raise Unsupported('masked array store')
            if not isinstance(v, Ref):
                raise Unsupported('masked store through view')
            x = self.cast(val, base.kind)
            self.heap[ref.id] = ArrVal(base.shape, lambda ix: ite(
                truth(m.get(ix[:m.ndim])), x, base.get(ix)), base.kind)
            return
        raise Unsupported('fancy store')

    def cast(self, val, kind):
        if kind == 'obj':
            return val
        if self.is_arr(val):
            a = self.arr(val)
            if a.ndim == 0 or all(not is_z3(s) and s == 1 for s in a.shape):
                val = a.get((0,) * a.ndim)
            else:
                raise PyRaise('ValueError', 'setting element with sequence')
        return to_kind(val, kind)

    def store_list(self, c, i, nv):
        return ArrVal(c.shape, lambda ix: ite(
            cmp('==', ix[0], i), nv, c.get(ix)) if not (
                isinstance(nv, ArrVal) or c.kind == 'obj')
            else self.ite_lazy(cmp('==', ix[0], i), nv, lambda: c.get(ix)),
            c.kind if is_scalar(nv) and c.kind != 'obj' and
            c.kind == kind_of(nv) else 'obj', True, (c, i, nv))

    def ite_lazy(self, c, a, bf):
        if c is True:
            return a
        b = bf()
        if c is False:
            return b
        return ite(c, a, b)

    def store_at(self, base, tgt, x):
        def g(ix):
            c = And(*[cmp('==', p, q) for p, q in zip(ix, tgt)])
            if c is True:
                return x
            b = base.get(ix)
            return ite(simp(c) if is_z3(c) else c, x, b)
        return ArrVal(base.shape, g, base.kind, base.is_list)

    def store_view(self, ref, shape, imap, val):
        """store a scalar/array through a view whose index map is, per base
        dimension, constant or affine in one view index with coefficient"""
        base = self.heap[ref.id]
        nb = base.ndim
        xs = [self.fresh('sv', I) for _ in shape]
        tgt = imap(tuple(xs))
        # invert: for each base dim, determine dependence
        inv = []
        used = {}
        for d in range(nb):
            t = tgt[d]
            dep = [k for k, x in enumerate(xs) if is_z3(t) and any(
                c.eq(x) for c in free_consts(t))]
            if not dep:
                inv.append(('c', t))
            elif len(dep) == 1:
                k = dep[0]
                off = simp(z3.substitute(Z(t), (xs[k], z3.IntVal(0))))
                one = simp(z3.substitute(Z(t), (xs[k], z3.IntVal(1))))
                co = sub(one, off)
                if is_z3(co) or co == 0:
                    raise Unsupported('view stride')
                inv.append(('v', k, off, co))
                used[k] = d
            else:
                raise Unsupported('view map')
        if len(used) != len(shape):
            raise Unsupported('view map')
        src = None
        if self.is_arr(val):
            src = self.arr(val)
            if src.ndim > len(shape):
                raise PyRaise('ValueError', 'broadcast')
            offd = len(shape) - src.ndim
            for d in range(src.ndim):
                if not is_z3(src.shape[d]) and src.shape[d] == 1:
                    continue
                self.oblige('shape', cmp('==', src.shape[d],
                                         shape[offd + d]), 'store shape')
        elif not is_scalar(val):
            raise Unsupported('store value')

        def g(ix):
            conds, vix = [], [None] * len(shape)
            for d in range(nb):
                e = inv[d]
                if e[0] == 'c':
                    conds.append(cmp('==', ix[d], e[1]))
                else:
                    _, k, off, co = e
                    dlt = sub(ix[d], off)
                    if co == 1:
                        q = dlt
                    elif co == -1:
                        q = neg(dlt)
                    else:
                        q = floordiv(dlt, co)
                        conds.append(cmp('==', mod(dlt, abs(co)), 0))
                    conds.append(cmp('>=', q, 0))
                    conds.append(cmp('<', q, shape[k]))
                    vix[k] = q
            c = And(*conds)
            c = simp(c) if is_z3(c) else c
            if c is False:
                return base.get(ix)
            if src is None:
                x = to_kind(val, base.kind)
            else:
                sx = []
                offd = len(shape) - src.ndim
                for d in range(src.ndim):
                    sx.append(0 if not is_z3(src.shape[d]) and
                              src.shape[d] == 1 else vix[offd + d])
                x = to_kind(src.get(tuple(sx)), base.kind)
            return ite(c, x, base.get(ix))
        self.heap[ref.id] = ArrVal(base.shape, g, base.kind, base.is_list)

    def forall_term(self, k, body):
        if isinstance(body, bool):
            return body
        body = z3.simplify(body)
        if z3.is_true(body):
            return True
        if not any(c.eq(k) for c in free_consts(body)):
            return body
        return z3.ForAll([k], body)

    def exists_term(self, k, body):
        if isinstance(body, bool):
            return body
        body = z3.simplify(body)
        if z3.is_false(body):
            return False
        if not any(c.eq(k) for c in free_consts(body)):
            return body
        return z3.Exists([k], body)

    # ------------------------------------------------------ elementwise ops
    def broadcast(self, a, b):
        "common shape + index adapters"
        nd = max(a.ndim, b.ndim)
        sa = (1,) * (nd - a.ndim) + a.shape
        sb = (1,) * (nd - b.ndim) + b.shape
        shape, fa, fb = [], [], []
        for x, y in zip(sa, sb):
            cx, cy = not is_z3(x), not is_z3(y)
            if cx and cy and x == y:
                shape.append(x), fa.append(0), fb.append(0)
            elif cx and x == 1:
                shape.append(y), fa.append(1), fb.append(0)
            elif cy and y == 1:
                shape.append(x), fa.append(0), fb.append(1)
            else:
                if cx and cy:
                    raise PyRaise('ValueError', 'shape mismatch')
                if not (is_z3(x) and is_z3(y) and x.eq(y)):
                    self.oblige('shape', cmp('==', x, y), 'broadcast')
                shape.append(x if cx else y)
                fa.append(0), fb.append(0)

        def adapt(arrv, flags):
            k = nd - arrv.ndim

            def g(ix):
                return arrv.get(tuple(
                    0 if flags[k + d] else ix[k + d]
                    for d in range(arrv.ndim)))
            return g
        return shape, adapt(a, fa), adapt(b, fb)

    def elementwise(self, f, a, b, kind):
        aa, bb = self.is_arr(a), self.is_arr(b)
        if not aa and not bb:
            return f(a, b)
        if aa and bb:
            x, y = self.arr(a), self.arr(b)
            shape, ga, gb = self.broadcast(x, y)
            return self.alloc(ArrVal(shape, lambda ix: f(ga(ix), gb(ix)),
                                     kind))
        if aa:
            x = self.arr(a)
            return self.alloc(ArrVal(x.shape, lambda ix: f(x.get(ix), b),
                                     kind))
        y = self.arr(b)
        return self.alloc(ArrVal(y.shape, lambda ix: f(a, y.get(ix)), kind))

    def akind(self, v):
        if self.is_arr(v):
            return self.arr(v).kind
        return kind_of(v)

    def binop(self, op, a, b):
        la, lb = self.is_list(a), self.is_list(b)
        if op == 'Add' and la and lb:
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, ListVal) and isinstance(cb, ListVal):
                return self.alloc(ListVal(ca.items + cb.items))
            return self.alloc(self.concat([self.arr(a), self.arr(b)], True))
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'Mult' and (la or lb) and (is_scalar(a) or is_scalar(b)):
            lst, n = (a, b) if la else (b, a)
            c = self.content(lst)
            n = num(n)
            if isinstance(c, ListVal):
                if not is_z3(n):
                    return self.alloc(ListVal(c.items * max(int(n), 0)))
                if len(c.items) == 1:
                    it = c.items[0]
                    if self.is_arr(it):
                        it = self.arr(it)
                    ln = self.sel(cmp('>=', n, 0), n, 0)
                    return self.alloc(ArrVal((ln,), lambda ix: it,
                                             kind_of(it) if is_scalar(it)
                                             else 'obj', True))
            raise Unsupported('list repetition')
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == 'Mod' and isinstance(a, str):
                return '<fmt>'
            if op == 'Mult':
                return '<str>'
            raise PyRaise('TypeError', 'string operand')
        if a is None or b is None:
            raise PyRaise('TypeError', 'None operand')
        if la and not self.is_arr(b) or lb and not self.is_arr(a):
            raise PyRaise('TypeError', 'list operand')
        k = join_kind(self.akind(a), self.akind(b))
        arrs = self.is_arr(a) or self.is_arr(b)
        if op in ('Add', 'Sub', 'Mult'):
            f = {'Add': add, 'Sub': sub, 'Mult': mul}[op]
            kk = 'int' if k == 'bool' and not (arrs and op != 'Sub') else k
            if arrs and k == 'bool':
                if op == 'Add':
                    return self.elementwise(
                        lambda x, y: Or(truth(x), truth(y)), a, b, 'bool')
                if op == 'Mult':
                    return self.elementwise(
                        lambda x, y: And(truth(x), truth(y)), a, b, 'bool')
                raise PyRaise('TypeError', 'bool subtract')
            return self.elementwise(f, a, b, kk)
        if op == 'Div':
            self.nonzero(b)
            return self.elementwise(truediv, a, b, 'real')
        if op == 'FloorDiv':
            self.nonzero(b)
            return self.elementwise(floordiv, a, b,
                                    'int' if k == 'bool' else k)
        if op == 'Mod':
            self.nonzero(b)
            return self.elementwise(mod, a, b, 'int' if k == 'bool' else k)
        if op == 'Pow':
            return self.elementwise(powv, a, b, k)
        if op in ('BitAnd', 'BitOr') and k == 'bool':
            f = And if op == 'BitAnd' else Or
            return self.elementwise(lambda x, y: f(truth(x), truth(y)), a, b,
                                    'bool')
        if op == 'MatMult' and self.is_arr(a) and self.is_arr(b):
            from dv import npmodel
            return npmodel.TABLE['np.dot'](self, [a, b], {})
        raise Unsupported('operator %s' % op)

    def nonzero(self, b):
        if self.spec_mode:
            return
        if self.is_arr(b):
            x = self.arr(b)
            ks = [self.fresh('dz', I) for _ in x.shape]
            rng = And(*[And(cmp('>=', k, 0), cmp('<', k, n))
                        for k, n in zip(ks, x.shape)])
            g = Implies(rng, cmp('!=', x.get(tuple(ks)), 0))
            for k in ks:
                g = self.forall_term(k, g)
            self.oblige('nonzero-divisor', g, 'array divisor')
            return
        c = cmp('!=', b, 0)
        if c is False:
            raise PyRaise('ZeroDivisionError')
        self.oblige('nonzero-divisor', c, 'divisor')

    def compare(self, op, a, b):
        if op in ('is', 'is not'):
            r = self.identical(a, b)
            return r if op == 'is' else not r
        if op in ('in', 'not in'):
            r = self.contains(b, a)
            return r if op == 'in' else (
                (not r) if isinstance(r, bool) else simp(Not(r)))
        la, lb = self.is_list(a), self.is_list(b)
        if (la and lb) or (isinstance(a, tuple) and isinstance(b, tuple)):
            x, y = self.arr(a), self.arr(b)
            r = self.seq_equal(x, y)
            if op == '==':
                return r
            if op == '!=':
                return (not r) if isinstance(r, bool) else Not(r)
            raise Unsupported('sequence ordering')
        if (la and is_scalar(b)) or (lb and is_scalar(a)):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise PyRaise('TypeError')
        if self.is_arr(a) or self.is_arr(b):
            if a is None or b is None:
                raise Unsupported('array vs None')
            return self.elementwise(lambda x, y: cmp(op, x, y), a, b, 'bool')
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise PoisonRead((a if isinstance(a, Poison) else b).name)
        if not (is_scalar(a) or a is None or isinstance(a, str)) or not (
                is_scalar(b) or b is None or isinstance(b, str)):
            raise Unsupported('compare %r %r' % (type(a), type(b)))
        if op not in ('==', '!=') and (a is None or b is None or
                                       isinstance(a, str) or
                                       isinstance(b, str)):
            if isinstance(a, str) and isinstance(b, str):
                return {'<': a < b, '<=': a <= b, '>': a > b,
                        '>=': a >= b}[op]
            raise PyRaise('TypeError', 'ordering')
        return cmp(op, a, b)

    def identical(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            if is_z3(a) or is_z3(b):
                return cmp('==', a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        raise Unsupported('is')

    def seq_equal(self, x, y):
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported('sequence equality')
        n = cmp('==', x.shape[0], y.shape[0])
        if n is False:
            return False
        if not is_z3(x.shape[0]) and not is_z3(y.shape[0]):
            return And(*[cmp('==', x.get((k,)), y.get((k,)))
                         for k in range(x.shape[0])])
        k = self.fresh('eq', I)
        return And(n, self.forall_term(k, Implies(
            And(cmp('>=', k, 0), cmp('<', k, x.shape[0])),
            cmp('==', x.get((k,)), y.get((k,))))))

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('in str')
        cc = self.content(c)
        if isinstance(cc, DictVal):
            if cc.fn is not None:
                return cc.fn[0](x)
            if not is_z3(x):
                return norm_const(x) in cc.items
            return Or(*[cmp('==', x, k) for k in cc.items if k is not None])
        if isinstance(cc, SetVal):
            return self.set_member(cc, x)
        items = None
        if isinstance(c, tuple):
            items = c
        elif isinstance(cc, ListVal):
            items = cc.items
        if items is not None:
            if all(is_scalar(i) or i is None or isinstance(i, str)
                   for i in items):
                return Or(*[cmp('==', x, i) for i in items])
            if isinstance(x, tuple) and all(isinstance(i, tuple)
                                            for i in items):
                return Or(*[And(*[cmp('==', p, q) for p, q in zip(x, i)])
                            if len(i) == len(x) else False for i in items])
            raise Unsupported('membership')
        if isinstance(c, RangeVal):
            lo, hi = c.lo, add(c.lo, mul(c.n, c.step))
            if c.step == 1:
                return And(cmp('<=', lo, x), cmp('<', x, hi))
        if isinstance(c, IterVal):
            a = ArrVal((c.n,), lambda ix: c.elem(ix[0]), 'obj')
        else:
            a = self.arr(c)
        if a.ndim != 1:
            raise Unsupported('membership in matrix')
        n = a.shape[0]
        if not is_z3(n):
            return Or(*[cmp('==', a.get((k,)), x) for k in range(n)])
        k = self.fresh('in', I)
        return self.exists_term(k, And(
            cmp('>=', k, 0), cmp('<', k, n), cmp('==', a.get((k,)), x)))

    def set_member(self, s, x):
        for e in s.excl:
            pass
        ex = And(*[cmp('!=', x, e) for e in s.excl])
        if not is_z3(s.n):
            r = Or(*[cmp('==', s.gen(k), x) for k in range(s.n)])
        else:
            k = self.fresh('sm', I)
            r = self.exists_term(k, And(cmp('>=', k, 0), cmp('<', k, s.n),
                                        cmp('==', s.gen(k), x)))
        return And(r, ex)

    def concat(self, arrs, is_list=False):
        "1-D concatenation"
        kind = arrs[0].kind
        for a in arrs[1:]:
            kind = kind if kind == a.kind else join_kind(kind, a.kind)
        if all(not is_z3(a.shape[0]) for a in arrs) and \
                sum(a.shape[0] for a in arrs) <= 64:
            items = [a.get((k,)) for a in arrs for k in range(a.shape[0])]
            if kind in ('int', 'real', 'bool'):
                items = [to_kind(x, kind) for x in items]
            return const_array(items, kind, is_list)
        offs, tot = [], 0
        for a in arrs:
            offs.append(tot)
            tot = add(tot, a.shape[0])

        def g(ix):
            i = ix[0]
            r = None
            for a, o in reversed(list(zip(arrs, offs))):
                if not is_z3(a.shape[0]) and a.shape[0] == 0:
                    continue
                x = a.get((sub(i, o),) + tuple(ix[1:]))
                if kind in ('int', 'real', 'bool'):
                    x = to_kind(x, kind)
                if r is None:
                    r = x
                else:
                    r = ite(cmp('<', i, add(o, a.shape[0])), x, r)
            return r
        return ArrVal((tot,) + arrs[0].shape[1:], g, kind, is_list)

    # ----------------------------------------------------------- reductions
    def reduce_sum(self, n, elem, kind):
        n = num(n)
        if not is_z3(n) and n <= UNROLL:
            r = Fraction(0) if kind == 'real' else 0
            for k in range(n):
                r = add(r, elem(k))
            return r
        k = self.fresh('sum', I)
        e = num(elem(k))
        if kind == 'real':
            e = to_kind(e, 'real')
        return SUMS.make(k, e, 0, n)

    def quant_all(self, n, elem):
        n = num(n)
        if not is_z3(n) and n <= UNROLL:
            r = True
            for k in range(n):
                r = And(r, truth(elem(k)))
            return r
        k = self.fresh('all', I)
        e = truth(elem(k))
        return self.forall_term(k, Implies(
            And(cmp('>=', k, 0), cmp('<', k, n)), e))

    def quant_any(self, n, elem):
        n = num(n)
        if not is_z3(n) and n <= UNROLL:
            r = False
            for k in range(n):
                r = Or(r, truth(elem(k)))
            return r
        k = self.fresh('any', I)
        e = truth(elem(k))
        return self.exists_term(k, And(cmp('>=', k, 0), cmp('<', k, n), e))

    def extremum(self, n, elem, kind, ismin):
        "min/max of a nonempty family, with its defining facts"
        n = num(n)
        if not is_z3(n) and n <= UNROLL:
            if n == 0:
                raise PyRaise('ValueError', 'empty extremum')
            r = elem(0)
            for k in range(1, n):
                r = minv(r, elem(k)) if ismin else maxv(r, elem(k))
            return r
        self.oblige('nonempty', cmp('>', n, 0), 'extremum of empty array')
        m = self.fresh('ext', R if kind == 'real' else I)
        w = self.fresh('arg', I)
        k = self.fresh('ek', I)
        self.assume(And(cmp('>=', w, 0), cmp('<', w, n),
                        cmp('==', elem(w), m)))
        self.assume(self.forall_term(k, Implies(
            And(cmp('>=', k, 0), cmp('<', k, n)),
            cmp('<=' if ismin else '>=', m, elem(k)))))
        return m

    def arg_extremum(self, n, elem, kind, ismin):
        n = num(n)
        if not is_z3(n) and n <= UNROLL:
            if n == 0:
                raise PyRaise('ValueError', 'empty extremum')
            r, w = elem(0), 0
            for k in range(1, n):
                e = elem(k)
                c = cmp('<' if ismin else '>', e, r)
                r, w = ite(c, e, r), ite(c, k, w)
            return w
        self.oblige('nonempty', cmp('>', n, 0), 'argmin/argmax')
        w = self.fresh('arg', I)
        k = self.fresh('ek', I)
        self.assume(And(cmp('>=', w, 0), cmp('<', w, n)))
        ew = elem(w)
        self.assume(self.forall_term(k, Implies(
            And(cmp('>=', k, 0), cmp('<', k, n)),
            And(cmp('<=' if ismin else '>=', ew, elem(k)),
                Implies(cmp('<', k, w),
                        cmp('<' if ismin else '>', ew, elem(k)))))))
        return w



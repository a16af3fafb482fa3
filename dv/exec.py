"""Statement / expression execution, calls and loop summarisation."""
import ast
import z3
from fractions import Fraction
from .values import *
from .interp import Interp, Path, Oblig, Tmpl
from .prover import (SUMS, check_sat, QUICK_RLIMIT, has_quant, free_consts,
                     fun_decls, discharge)
from . import prover

CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}

SPEC_FNS = {'forall', 'exists', 'total', 'count', 'implies', 'iff', 'ite',
            'real', 'near'}


class Frame:
    __slots__ = ('env', 'mod', 'closure', 'fname')

    def __init__(self, env, mod, closure=None, fname=''):
        self.env, self.mod, self.closure = env, mod, closure
        self.fname = fname


def assigned_names(stmts):
    "names (re)bound by a statement list, nested functions excluded"
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(st):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                tgt(t)
        elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
            tgt(st.target)
        elif isinstance(st, ast.For):
            tgt(st.target)
        elif isinstance(st, ast.With):
            for i in st.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            out.append(st.name)
            return
        for e in ast.walk(st) if isinstance(st, ast.expr) else ():
            pass
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            for s in getattr(st, f, []) or []:
                go(s)
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                for w in ast.walk(e):
                    if isinstance(w, ast.NamedExpr):
                        tgt(w.target)
    for s in stmts:
        go(s)
    seen, res = set(), []
    for n in out:
        if n not in seen:
            seen.add(n)
            res.append(n)
    return res


class Exec(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.frame = None
        self.npm = None
        from . import npmodel
        self.npm = npmodel

    abstract = ()

    def abs_key(self, v):
        if is_z3(v):
            return 'z', v.get_id()
        if self.is_arr(v):
            return 'a', id(self.arr(v))
        c = self.content(v)
        if isinstance(c, ListVal):
            return ('l',) + tuple(self.abs_key(x) for x in c.items)
        if isinstance(c, ObjVal):
            return ('o', c.cls.name if c.cls else None) + tuple(
                (k, self.abs_key(x)) for k, x in sorted(c.attrs.items()))
        if isinstance(c, DictVal):
            return ('d',) + tuple((repr(k), self.abs_key(x))
                                  for k, x in c.items.items())
        if isinstance(v, tuple):
            return ('t',) + tuple(self.abs_key(x) for x in v)
        return type(v).__name__, repr(v)

    def abstract_value(self, fv, env):
        """predicate of the specification left uninterpreted (proving for
        an arbitrary predicate of the same arguments proves it for this
        one)"""
        key = (fv.mod, fv.name) + tuple(
            (n, self.abs_key(v)) for n, v in sorted(env.items()))
        tab = self.__dict__.setdefault('abs_tab', {})
        if key not in tab:
            keep = [self.arr(v) if self.is_arr(v) else v
                    for v in env.values()]
            tab[key] = z3.Bool('abs_%s!%d' % (fv.name, len(tab))), keep
        return tab[key][0]

    # ------------------------------------------------------------ functions
    def call_func(self, fv, args, kwargs):
        node = fv.node
        key = (fv.mod, fv.name)
        if fv.closure is None and key in self.contracts and \
                not self.spec_mode:
            return self.contracts[key](self, fv, args, kwargs)
        if self.spec_mode and key in self.abstract:
            return self.abstract_value(fv, self.bind(fv, args, kwargs))
        if fv.mod == 'src.divers.pretty_print' and not self.spec_mode:
            self.assumed_used.add('%s only prints' % fv.name)
            return None
        if self.depth > 24:
            raise Unsupported('recursion depth')
        for d in getattr(node, 'decorator_list', ()):
            if not (isinstance(d, ast.Name) and d.id in (
                    'property', 'staticmethod')) and not (
                        isinstance(d, ast.Attribute) and
                        d.attr == 'setter'):
                raise Unsupported('decorator')
        env = self.bind(fv, args, kwargs)
        saved = self.frame
        if not fv.mod.startswith('contracts.') and not self.spec_mode:
            self.functions_used.add('%s:%s' % (fv.mod, fv.name))
        self.frame = Frame(env, fv.mod, fv.closure, fv.name or '')
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in ast.walk(node)):
                raise Unsupported('generator')
            try:
                self.block(node.body)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.depth -= 1
            self.frame = saved

    def bind(self, fv, args, kwargs):
        a = fv.node.args
        names = [p.arg for p in a.args]
        env = {}
        args = list(args)
        if fv.self_obj is not None:
            args = [fv.self_obj] + args
        if len(args) > len(names) and not a.vararg:
            raise PyRaise('TypeError', 'too many arguments')
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in env:
                raise PyRaise('TypeError', 'multiple values for ' + k)
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise('TypeError', 'unexpected keyword ' + k)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(DictVal(extra))
        dflt = a.defaults
        for n, d in zip(names[len(names) - len(dflt):], dflt):
            if n not in env:
                env[n] = self.default_value(fv, d)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.default_value(fv, d)
        for n in names + kwonly:
            if n not in env:
                raise PyRaise('TypeError', 'missing argument ' + n)
        return env

    def default_value(self, fv, d):
        saved = self.frame
        self.frame = Frame({}, fv.mod, fv.closure)
        try:
            return self.ev(d)
        finally:
            self.frame = saved

    # ----------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if hasattr(s, 'lineno') and self.frame:
            if not self.frame.mod.startswith('contracts.'):
                self.loc = '%s:%d' % (self.frame.fname, s.lineno)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Import(self, s):
        for a in s.names:
            self.frame.env[a.asname or a.name.split('.')[0]] = ModVal(
                a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, s):
        for a in s.names:
            raise Unsupported('local import')

    def st_Assert(self, s):
        if not self.branch(truth(self.ev(s.test))):
            raise PyRaise('AssertionError')

    def st_Global(self, s):
        raise Unsupported('global')

    def st_Nonlocal(self, s):
        raise Unsupported('nonlocal')

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            ln = self.seq_len(v)
            if is_z3(ln):
                self.oblige('unpack', cmp('==', ln, n), 'unpacking')
            elif ln != n:
                raise PyRaise('ValueError', 'unpacking')
            for k, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, k))
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            c = self.content(o)
            if isinstance(c, ObjVal) and not isinstance(o, Ref):
                raise Unsupported('store into an object of a list')
            if isinstance(c, ObjVal):
                d = dict(c.attrs)
                d[t.attr] = v
                self.heap[o.id] = ObjVal(c.cls, d)
                return
            if isinstance(c, ArrVal) and t.attr == 'shape':
                raise Unsupported('shape assignment')
            raise Unsupported('attribute store')
        else:
            raise Unsupported('assignment target')

    def st_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id)
            val = self.ev(s.value)
            if self.is_arr(cur) and self.is_list(cur) and op == 'Add':
                self.list_extend(cur, val)
                return
            r = self.binop(op, cur, val)
            if self.is_arr(cur) and not self.is_list(cur):
                self.inplace(cur, r)
            else:
                self.frame.env[s.target.id] = r
            return
        if isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            ix = self.index(s.target.slice)
            cur = self.getitem(o, ix)
            r = self.binop(op, cur, self.ev(s.value))
            if self.is_arr(cur) and not self.is_list(cur) and \
                    isinstance(cur, View):
                self.inplace(cur, r)
            else:
                self.setitem(o, ix, r)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            cur = self.attr(o, s.target.attr)
            r = self.binop(op, cur, self.ev(s.value))
            if self.is_arr(cur) and not self.is_list(cur):
                self.inplace(cur, r)
            else:
                self.assign(s.target, r)
            return
        raise Unsupported('augmented assignment')

    def inplace(self, cur, r):
        "numpy in-place update keeps dtype and identity"
        if isinstance(cur, ElemRef):
            lst = self.arr(cur.ref)
            self.heap[cur.ref.id] = self.store_list(
                lst, cur.index, self.arr(r))
            return
        k = self.arr(cur).kind
        rk = self.arr(r).kind if self.is_arr(r) else kind_of(r)
        if join_kind(k, rk) != k:
            raise PyRaise('UFuncTypeError', 'in-place cast %s -> %s' % (
                rk, k))
        ref, shape, imap = self.root_view(cur)
        if isinstance(cur, Ref):
            x = self.arr(r)
            base = self.heap[ref.id]
            self.heap[ref.id] = ArrVal(
                base.shape, lambda ix: to_kind(x.get(ix), k), k,
                base.is_list)
            return
        self.store_view(ref, shape, imap, r)

    def list_extend(self, cur, val):
        c = self.content(cur)
        if isinstance(c, ListVal) and isinstance(self.content(val), ListVal):
            self.heap[cur.id] = ListVal(c.items + self.content(val).items)
            return
        self.heap[cur.id] = self.concat([self.arr(cur), self.arr(val)], True)

    def st_If(self, s):
        c = self.cond(s.test)
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse)
            return
        if self.branch(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def cond(self, e):
        "truth value of a test expression, short circuit with guards"
        v = self.ev(e)
        if self.is_arr(v):
            a = self.arr(v)
            if a.is_list:
                return cmp('>', a.shape[0], 0)
            sz = a.size()
            if not is_z3(sz) and sz == 1:
                return truth(a.get((0,) * a.ndim))
            raise PyRaise('ValueError', 'truth value of an array')
        c = self.content(v)
        if isinstance(c, DictVal):
            return len(c.items) > 0
        if isinstance(c, ObjVal):
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        return truth(v)

    def st_Return(self, s):
        raise ReturnSig(self.ev(s.value) if s.value is not None else None)

    def st_Break(self, s):
        raise BreakSig()

    def st_Continue(self, s):
        raise ContinueSig()

    def st_Raise(self, s):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else (
                e.attr if isinstance(e, ast.Attribute) else 'Exception')
        raise PyRaise(name, 'raise')

    def st_FunctionDef(self, s):
        self.frame.env[s.name] = FuncVal(s, self.frame.mod, self.frame,
                                         s.name)

    def st_Try(self, s):
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                if self.handler_matches(h, e):
                    if h.name:
                        self.frame.env[h.name] = '<exc>'
                    self.block(h.body)
                    break
            else:
                self.block(s.finalbody)
                raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    def handler_matches(self, h, e):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
                 for t in ts]
        return e.name in names or 'Exception' in names or (
            e.name in ('IndexError', 'KeyError') and 'LookupError' in names)

    def st_With(self, s):
        raise Unsupported('with')

    # ---------------------------------------------------------------- loops
    def iterable(self, v):
        "(count, element function) or a SetVal"
        if isinstance(v, RangeVal):
            return v.n, (lambda i: add(v.lo, mul(i, v.step)))
        if isinstance(v, IterVal):
            return v.n, v.elem
        if isinstance(v, tuple):
            return len(v), (lambda i: v[i] if not is_z3(i)
                            else self.getitem(v, i))
        if isinstance(v, str):
            return len(v), (lambda i: v[i])
        c = self.content(v)
        if isinstance(c, ListVal):
            items = c.items
            return len(items), (lambda i: items[i] if not is_z3(i)
                                else self.getitem(v, i))
        if isinstance(c, SetVal):
            return c, None
        if isinstance(c, DictVal):
            if c.fn is not None:
                raise Unsupported('iterate symbolic dict')
            ks = tuple(c.items)
            return len(ks), (lambda i: ks[i])
        if self.is_arr(v):
            a = self.arr(v)
            n = a.shape[0]
            if a.ndim == 1:
                if a.is_list and isinstance(v, Ref):
                    def el(i):
                        x = a.get((i,))
                        return ElemRef(v, i) if isinstance(x, ArrVal) else x
                    return n, el
                return n, (lambda i: a.get((i,)))
            if isinstance(v, Ref):
                return n, (lambda i: self.getitem(v, (i,)))
            if isinstance(v, View):
                return n, (lambda i: View(v.ref, v.shape[1:], lambda ix:
                                          v.imap((i,) + tuple(ix))))
            return n, (lambda i: ArrVal(a.shape[1:], lambda ix: a.get(
                (i,) + tuple(ix)), a.kind))
        raise Unsupported('iteration over %r' % (type(v),))

    def st_For(self, s):
        n, elem = self.iterable(self.ev(s.iter))
        if elem is None:
            return self.set_loop(s, n)
        n = num(n)
        if not is_z3(n):
            if n > 4000:
                raise Unsupported('long concrete loop')
            brk = False
            for k in range(n):
                self.assign(s.target, elem(k))
                try:
                    self.block(s.body)
                except BreakSig:
                    brk = True
                    break
                except ContinueSig:
                    pass
            if not brk:
                self.block(s.orelse)
            return
        if isinstance(s.body[-1], (ast.Break, ast.Return, ast.Raise)):
            # a search loop: its first iteration is the last one unless it
            # is skipped by `continue`
            if not self.branch(cmp('>', n, 0)):
                self.block(s.orelse)
                return
            self.assign(s.target, elem(0))
            try:
                self.block(s.body)
            except BreakSig:
                return
            except ContinueSig:
                pass
            self.sym_loop(s, sub(n, 1), lambda i: self.assign(
                s.target, elem(add(i, 1))), None)
            return
        self.sym_loop(s, n, lambda i: self.assign(s.target, elem(i)), None)

    def st_While(self, s):
        # concrete unrolling while the condition stays concrete
        env0, heap0, pc0 = dict(self.frame.env), dict(self.heap), list(self.pc)
        for k in range(400):
            try:
                self.nofork += 1
                try:
                    c = self.cond(s.test)
                finally:
                    self.nofork -= 1
            except NeedFork:
                c = None
            if not isinstance(c, bool):
                if c is not None and self.entails(c) and False:
                    c = True
                elif c is not None and k and self.entails(Not(c)):
                    c = False
                else:
                    break
            if not c:
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except BreakSig:
                return
            except ContinueSig:
                pass
        else:
            raise Unsupported('long concrete while')
        if k > 0:
            # the condition became symbolic after some concrete rounds
            pass
        self.sym_loop(s, None, None, s.test)

    def set_loop(self, s, sv):
        """loop over the elements of a set: order free bodies only; each
        element v of the set is taken for some iteration"""
        if not is_z3(sv.n) and not is_z3(num(sv.n)) and sv.n == 0:
            self.block(s.orelse)
            return
        bound = assigned_names([s])
        entry_env = dict(self.frame.env)
        pre_ids = set(self.heap)
        heap0 = dict(self.heap)
        k = self.fresh('setk', I)
        frame = self.frame

        def run():
            self.frame.env = dict(entry_env)
            for b in bound:
                self.frame.env[b] = Poison(b)
            self.pc.append(z3.And(k >= 0, k < Z(sv.n)))
            v = sv.gen(k)
            self.assume(And(*[cmp('!=', v, e) for e in sv.excl]))
            self.assign(s.target, v)
            return self.signal(lambda: self.block(s.body))
        saved_loc = self.loc
        paths = self.explore(run)
        self.frame = frame
        self.frame.env = entry_env
        self.loc = saved_loc
        exits = []
        normals = []
        for p in paths:
            if p.kind in ('normal', 'continue'):
                normals.append(p)
                for i in pre_ids:
                    if p.heap.get(i) is not heap0.get(i):
                        raise Unsupported('set loop with carried state')
            else:
                exits.append(p)
        if not exits:
            for b in bound:
                self.frame.env[b] = Poison(b)
            return
        if not all(p.kind == 'return' and not is_z3(p.value) and
                   not isinstance(p.value, (Ref, View)) and
                   p.value == exits[0].value and
                   type(p.value) == type(exits[0].value)
                   or p.kind == 'raise' and exits[0].kind == 'raise' and
                   p.value.name == exits[0].value.name for p in exits):
            raise Unsupported('set loop with several exits')
        E = Or(*[self.close_pcs(p.pcs, [k]) for p in exits])
        some = self.exists_term(k, E)
        none = self.forall_term(k, Not(E) if is_z3(E) else (not E))
        if self.branch_q(some, none):
            self.raise_signal(exits[0])
        for b in bound:
            self.frame.env[b] = Poison(b)
        self.block(s.orelse)

    def branch_q(self, pos, neg):
        "branch on a quantified condition with an explicit negation"
        if isinstance(pos, bool):
            return pos
        if self.nofork:
            raise NeedFork()
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
        else:
            self.work.append(self.dec[:self.pos] + [(False, True)])
            d = (True, True)
            self.dec = self.dec[:self.pos] + [d]
            self.pos += 1
        self.pc.append(pos if d[0] else Z(neg))
        return d[0]

    def signal(self, thunk):
        try:
            thunk()
        except ReturnSig as r:
            return 'return', r.value, dict(self.frame.env)
        except BreakSig:
            return 'break', None, dict(self.frame.env)
        except ContinueSig:
            return 'continue', None, dict(self.frame.env)
        except PyRaise as e:
            return 'raise', e, dict(self.frame.env)
        return 'normal', None, dict(self.frame.env)

    def raise_signal(self, p):
        if p.kind == 'return':
            raise ReturnSig(p.value)
        if p.kind == 'raise':
            raise p.value

    def close_pcs(self, pcs, keep):
        """conjunction of path conditions with symbols created on the path
        (other than keep) existentially closed"""
        c = And(*pcs)
        if isinstance(c, bool):
            return c
        locs = [x for x in free_consts(c) if self.is_local_const(x) and
                not any(x.eq(q) for q in keep)]
        if self.local_funs(c):
            raise Unsupported('local function symbol in exit condition')
        if locs:
            c = z3.Exists(locs, c)
        return c

    def is_local_const(self, x):
        nm = x.decl().name()
        if '!' not in nm:
            return False
        try:
            k = int(nm.rsplit('!', 1)[1])
        except ValueError:
            return False
        return k > self.local_mark

    def local_funs(self, t):
        out = []
        for nm in fun_decls(t):
            if '!' in nm:
                try:
                    k = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if k > self.local_mark:
                    out.append(nm)
        return out

    local_mark = 1 << 60

    # -- the loop summariser ------------------------------------------------
    def sym_loop(self, s, n, bind, test):
        self.stats['loops'] += 1
        L = LoopSummary(self, s, n, bind, test)
        L.run()

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        if isinstance(e.value, (bytes, complex)) or e.value is Ellipsis:
            raise Unsupported('constant')
        return norm_const(e.value)

    def name(self, nm):
        f = self.frame
        while f is not None:
            if nm in f.env:
                v = f.env[nm]
                if isinstance(v, Poison):
                    raise PoisonRead(v.name)
                if isinstance(v, MaybeUndef):
                    if not self.spec_mode:
                        self.oblige('defined', v.cond, 'name ' + nm)
                    return v.value
                return v
            f = f.closure
        r = self.repo.resolve(self.frame.mod, nm)
        if r is not None:
            if isinstance(r, tuple) and r and r[0] == 'const':
                saved = self.frame
                self.frame = Frame({}, r[2])
                try:
                    return self.ev(r[1])
                finally:
                    self.frame = saved
            return r
        if nm in SPEC_FNS and self.spec_mode:
            return Builtin('spec.' + nm)
        if nm in self.npm.BUILTINS:
            return Builtin(nm)
        if nm in self.npm.EXC_NAMES:
            return Builtin('exc.' + nm)
        raise PyRaise('NameError', nm)

    def ex_Name(self, e):
        return self.name(e.id)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ex_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                n, el = self.iterable(self.ev(x.value))
                if is_z3(n):
                    raise Unsupported('star')
                out.extend(el(k) for k in range(n))
            else:
                out.append(self.ev(x))
        return tuple(out)

    def ex_List(self, e):
        return self.alloc(ListVal(self.ex_Tuple(e)))

    def ex_Set(self, e):
        items = [self.ev(x) for x in e.elts]
        return self.alloc(SetVal(len(items), lambda k, it=items: it[k]
                                 if not is_z3(k) else const_array(
                                     it).get((k,))))

    def ex_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k)
            if is_z3(kk):
                raise Unsupported('symbolic dict key')
            d[norm_const(kk)] = self.ev(v)
        return self.alloc(DictVal(d))

    def ex_JoinedStr(self, e):
        return '<fstring>'

    def ex_Lambda(self, e):
        return FuncVal(e, self.frame.mod, self.frame, '<lambda>')

    def ex_IfExp(self, e):
        c = self.cond(e.test)
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse)
        try:
            a = self.under(c, lambda: self.ev(e.body))
            b = self.under(simp(Not(c)), lambda: self.ev(e.orelse))
            if is_scalar(a) and is_scalar(b):
                return ite(c, a, b)
        except (NeedFork, PyRaise):
            pass
        if self.branch(c):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def under(self, guard, thunk):
        "evaluate without forking, assuming guard"
        heap0 = dict(self.heap)
        self.guards.append(guard)
        self.nofork += 1
        try:
            if not self.feasible(z3.BoolVal(True)):
                raise NeedFork()
            r = thunk()
        finally:
            self.nofork -= 1
            self.guards.pop()
        for k, v in heap0.items():
            if self.heap.get(k) is not v:
                self.heap = heap0
                raise NeedFork()
        return r

    def eval_pure(self, k, rng, thunk):
        """value of thunk for a generic k in range (None: empty range); forks
        inside are merged; facts about k are generalised"""
        if rng is True:
            rng = z3.BoolVal(True)
        if not self.feasible(rng):
            return None
        n0 = len(self.pc)
        ctr0 = self.ctr
        try:
            v = self.under(rng, thunk)
        except NeedFork:
            del self.pc[n0:]
            env = dict(self.frame.env)
            heap0 = dict(self.heap)
            self.guards.append(rng)
            try:
                paths = self.explore(lambda: ('value', thunk(), None))
            finally:
                self.guards.pop()
            self.frame.env = env
            self.heap = heap0
            v = None
            ng = len(self.guards) + 1
            for p in reversed(paths):
                c = And(*p.pcs)
                v = p.value if v is None else ite(
                    simp(c) if is_z3(c) else c, p.value, v)
        new = self.pc[n0:]
        del self.pc[n0:]
        for f in new:
            if any(x.eq(k) for x in free_consts(f)):
                f = z3.ForAll([k], f)
            self.pc.append(f)
        return v

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self.boolop(e.values, isand)

    def boolop(self, vals, isand):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        c = self.to_cond(v)
        if isinstance(c, bool):
            if c == isand:
                return self.boolop(vals[1:], isand)
            return v
        g = c if isand else simp(Not(c))
        if kind_of(v) == 'bool' and is_z3(g) and not self.feasible(g):
            return not isand
        try:
            r = self.under(g, lambda: self.boolop(vals[1:], isand))
            rc = self.to_cond(r)
            if kind_of(v) == 'bool' and (kind_of(r) == 'bool'):
                x = And(c, rc) if isand else Or(c, rc)
                return simp(x) if is_z3(x) else x
        except (NeedFork, PyRaise):
            pass
        if self.branch(c) == isand:
            return self.boolop(vals[1:], isand)
        return v if kind_of(v) != 'bool' else (not isand)

    def to_cond(self, v):
        if self.is_arr(v):
            a = self.arr(v)
            if a.is_list:
                return cmp('>', a.shape[0], 0)
            sz = a.size()
            if not is_z3(sz) and sz == 1:
                return truth(a.get((0,) * a.ndim))
            raise PyRaise('ValueError', 'truth value of an array')
        if isinstance(v, tuple):
            return len(v) > 0
        c = self.content(v)
        if isinstance(c, DictVal):
            return len(c.items) > 0
        if isinstance(c, ObjVal):
            return True
        return truth(v)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            c = self.to_cond(v)
            return (not c) if isinstance(c, bool) else simp(Not(c))
        if isinstance(e.op, ast.USub):
            if self.is_arr(v):
                a = self.arr(v)
                return self.alloc(a.map(neg, 'int' if a.kind == 'bool'
                                        else a.kind))
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if self.is_arr(v):
                a = self.arr(v)
                if a.kind == 'bool':
                    return self.alloc(a.map(lambda x: Not(truth(x))
                                            if is_z3(truth(x))
                                            else not truth(x), 'bool'))
            if kind_of(v) == 'bool' and is_z3(v):
                return simp(Not(v))   # numpy bool
        raise Unsupported('unary operator')

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def ex_Compare(self, e):
        left = self.ev(e.left)
        res = True
        rest = list(zip(e.ops, e.comparators))
        op, cx = rest[0]
        right = self.ev(cx)
        r = self.compare(CMPOPS[type(op)], left, right)
        if len(rest) == 1:
            return r
        res = r
        left = right
        for op, cx in rest[1:]:
            right = self.ev(cx)
            r = self.compare(CMPOPS[type(op)], left, right)
            res = And(truth(res), truth(r))
            left = right
        return simp(res) if is_z3(res) else res

    def index(self, sl):
        if isinstance(sl, ast.Slice):
            return slice(*[self.ev(x) if x is not None else None
                           for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return tuple(self.index(x) for x in sl.elts)
        return self.ev(sl)

    def ex_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.index(e.slice))

    def ex_Attribute(self, e):
        return self.attr(self.ev(e.value), e.attr)

    def attr(self, v, nm):
        if isinstance(v, ModVal):
            full = v.name
            if full in ('numpy', 'math', 'numpy.linalg', 'random',
                        'numpy.random', 'numpy.matlib', 'itertools',
                        'time', 'sys', 'os'):
                if nm == 'pi' and full in ('numpy', 'math'):
                    pi = z3.Real('PI')
                    self.assume(z3.And(pi > 3, pi < 4))
                    return pi
                if full == 'numpy' and nm in ('linalg', 'random', 'matlib'):
                    return ModVal('numpy.' + nm)
                return Builtin({'numpy': 'np', 'numpy.linalg': 'np.linalg',
                                'numpy.random': 'np.random',
                                'numpy.matlib': 'np.matlib'}.get(
                                    full, full) + '.' + nm)
            r = self.repo.resolve(full, nm)
            if r is None:
                if self.repo.load(full + '.' + nm):
                    return ModVal(full + '.' + nm)
                return ModVal(full + '.' + nm)
            return r
        c = self.content(v)
        if isinstance(c, ObjVal):
            if nm in c.attrs:
                return c.attrs[nm]
            if isinstance(c.cls, ClassVal):
                m = self.class_method(c.cls, nm)
                if m is not None:
                    dec = [d.id for d in m.node.decorator_list
                           if isinstance(d, ast.Name)]
                    fv = FuncVal(m.node, m.mod, None, m.name, v)
                    if 'property' in dec:
                        return self.call_func(fv, [], {})
                    return fv
            if self.partial and not self.probing:
                cls = None
                if isinstance(c.cls, ClassVal):
                    cls = (c.cls.mod, c.cls.name)
                if nm in self.repo.attributes_of(cls) and (
                        cls is None or cls[0].startswith('src.')):
                    raise Unsupported(
                        'attribute %s is not described by the contract' % nm)
            raise PyRaise('AttributeError', nm)
        if isinstance(v, ClassVal):
            m = self.class_method(v, nm)
            if m is not None:
                return m
            raise Unsupported('class attribute')
        if self.is_arr(v) and not self.is_list(v):
            a = self.arr(v)
            if nm == 'size':
                return a.size()
            if nm == 'shape':
                return tuple(a.shape)
            if nm == 'ndim':
                return a.ndim
            if nm == 'T':
                if a.ndim == 2:
                    return self.alloc(ArrVal(
                        a.shape[::-1], lambda ix: a.get((ix[1], ix[0])),
                        a.kind))
                return v
            if nm == 'dtype':
                return 'dtype:' + a.kind
            if nm in self.npm.ARRAY_METHODS:
                return BoundMethod(v, nm)
            raise PyRaise('AttributeError', nm)
        if isinstance(c, (ListVal, DictVal, SetVal)) or self.is_list(v) or \
                isinstance(v, str) or isinstance(v, tuple):
            return BoundMethod(v, nm)
        if is_scalar(v):
            if nm in ('astype', 'is_integer', 'item'):
                return BoundMethod(v, nm)
            if nm == 'size' or nm == 'shape' or nm == 'ndim':
                # numpy scalars have these, python scalars do not
                raise Unsupported('attribute of scalar')
        if isinstance(v, Poison):
            raise PoisonRead(v.name)
        if v is None:
            raise PyRaise('AttributeError', nm)
        raise Unsupported('attribute %s of %r' % (nm, type(v)))

    def class_method(self, cv, nm):
        for st in cv.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == nm:
                return FuncVal(st, cv.mod, None, cv.name + '.' + nm)
        for b in cv.node.bases:
            if isinstance(b, ast.Name) and b.id != 'object':
                r = self.repo.resolve(cv.mod, b.id)
                if isinstance(r, ClassVal):
                    return self.class_method(r, nm)
        return None

    def ex_Call(self, e):
        # numpy writes through views: keep them symbolic
        f = self.ev(e.func)
        if isinstance(f, Builtin) and f.name in ('filter', 'map') and \
                len(e.args) == 2 and not e.keywords:
            # filter(f, xs) == [x for x in xs if f(x)]; map likewise
            x = ast.Name('$x', ast.Load())
            fx = ast.Call(e.args[0], [x], [])
            flt = f.name == 'filter'
            gen = ast.comprehension(ast.Name('$x', ast.Store()), e.args[1],
                                    [fx] if flt else [], 0)
            return self.comprehension(x if flt else fx, [gen])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                n, el = self.iterable(self.ev(a.value))
                if is_z3(n):
                    raise Unsupported('star argument')
                args.extend(el(k) for k in range(n))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comprehension(a.elt, a.generators))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.content(self.ev(k.value))
                if not isinstance(d, DictVal):
                    raise Unsupported('**')
                kw.update(d.items)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return self.npm.call_builtin(self, f.name, args, kw)
        if isinstance(f, BoundMethod):
            return self.npm.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        raise Unsupported('call of %r' % (type(f),))

    def construct(self, cv, args, kw):
        key = (cv.mod, cv.name)
        if key in self.contracts and not self.spec_mode:
            return self.contracts[key](self, cv, args, kw)
        for b in cv.node.bases:
            if isinstance(b, ast.Name) and b.id in self.npm.EXC_NAMES:
                return Builtin('exc.' + cv.name)
        o = self.alloc(ObjVal(cv, {}))
        init = self.class_method(cv, '__init__')
        if init is not None:
            self.call_func(FuncVal(init.node, init.mod, None, init.name, o),
                           args, kw)
        return o

    # ------------------------------------------------------- comprehensions
    def comprehension(self, elt, gens, kind='list'):
        """a family; returns ListVal ref (concrete) or symbolic sequence"""
        if len(gens) > 1:
            return self.nested_comp(elt, gens)
        g = gens[0]
        n, elem = self.iterable(self.ev(g.iter))
        if elem is None:
            raise Unsupported('comprehension over a set')
        n = num(n)
        frame = self.frame
        if not is_z3(n):
            out = []
            for k in range(n):
                self.frame = Frame({}, frame.mod, frame, frame.fname)
                try:
                    self.assign(g.target, elem(k))
                    ok = True
                    for c in g.ifs:
                        if not self.branch(self.cond(c)):
                            ok = False
                            break
                    if ok:
                        out.append(self.ev(elt))
                finally:
                    self.frame = frame
            return self.alloc(ListVal(out))
        # symbolic: element function evaluated at a generic index
        k = self.fresh('ck', I)

        def eval_at(thunk):
            self.frame = Frame({}, frame.mod, frame, frame.fname)
            try:
                return self.under(z3.And(k >= 0, k < Z(n)), thunk)
            finally:
                self.frame = frame

        def thunk():
            self.assign(g.target, elem(k))
            c = True
            for t in g.ifs:
                cc = self.cond(t)
                c = And(c, cc)
                if is_z3(cc):
                    self.guards.append(cc)
            m = len([1 for t in g.ifs])
            try:
                v = self.ev(elt)
            finally:
                pass
            if self.is_arr(v):
                v = self.arr(v)
            return c, v
        ng = len(self.guards)
        if not self.feasible(n > 0 if is_z3(n) else z3.BoolVal(n > 0)):
            return self.alloc(ListVal([]))
        try:
            c, v = eval_at(thunk)
        finally:
            del self.guards[ng:]
        vals = self.lift(v, k)
        if c is True:
            return self.alloc(ArrVal((n,), lambda ix: vals(ix[0]),
                                     kind_of(v) if is_scalar(v) else 'obj',
                                     True))
        if isinstance(c, bool):
            return self.alloc(ListVal([]))
        cnt, sel = self.filter_sel(k, c, n)
        return self.alloc(ArrVal((cnt,), lambda ix: vals(sel(ix[0])),
                                 kind_of(v) if is_scalar(v) else 'obj',
                                 True))

    def lift(self, v, k):
        "value at generic index k -> function of the index"
        if is_scalar(v):
            if not is_z3(v):
                return lambda j: v
            return lambda j: simp(z3.substitute(v, (k, Z(j))))
        if v is None or isinstance(v, str):
            return lambda j: v
        if isinstance(v, tuple):
            fs = [self.lift(x, k) for x in v]
            return lambda j: tuple(f(j) for f in fs)
        if isinstance(v, (Ref, View, ElemRef)):
            if isinstance(v, Ref) and not isinstance(
                    self.heap[v.id], (ArrVal, ListVal)):
                raise Unsupported('object in symbolic sequence')
            v = self.arr(v)
        if isinstance(v, ArrVal):
            return self.lift_arr(v, k)
        raise Unsupported('lift %r' % (type(v),))

    def lift_arr(self, a, k):
        holes = [self.fresh('h', I) for _ in a.shape]
        el = a.get(tuple(holes))
        shp = [s for s in a.shape]
        if isinstance(el, ArrVal):
            raise Unsupported('nested symbolic sequence')

        def at(j):
            sh = [simp(z3.substitute(s, (k, Z(j)))) if is_z3(s) else s
                  for s in shp]
            return ArrVal(sh, lambda ix: el if not is_z3(el) else simp(
                z3.substitute(el, *([(k, Z(j))] + [
                    (h, Z(x)) for h, x in zip(holes, ix)]))), a.kind,
                a.is_list)
        return at

    def nested_comp(self, elt, gens):
        # only concrete outer generators
        g = gens[0]
        n, elem = self.iterable(self.ev(g.iter))
        if elem is None or is_z3(num(n)):
            raise Unsupported('nested comprehension')
        frame = self.frame
        out = []
        for k in range(n):
            self.frame = Frame({}, frame.mod, frame, frame.fname)
            try:
                self.assign(g.target, elem(k))
                ok = all([self.branch(self.cond(c)) for c in g.ifs])
                if ok:
                    r = self.comprehension(elt, gens[1:])
                    c = self.content(r)
                    if not isinstance(c, ListVal):
                        raise Unsupported('nested comprehension')
                    out.extend(c.items)
            finally:
                self.frame = frame
        return self.alloc(ListVal(out))

    def ex_ListComp(self, e):
        return self.comprehension(e.elt, e.generators)

    def ex_GeneratorExp(self, e):
        return self.comprehension(e.elt, e.generators)

    def ex_SetComp(self, e):
        r = self.comprehension(e.elt, e.generators)
        return self.npm.make_set(self, r)

    def ex_DictComp(self, e):
        raise Unsupported('dict comprehension')

    def ex_Starred(self, e):
        raise Unsupported('star')


from .loops import LoopSummary   # noqa: E402

"""Summaries of loops of unknown length (see interp.py).

For a loop with head state (carried names and heap cells) the body is executed
once for an arbitrary iteration `it` from a head state described by closed
forms.  A closed form of a carried item is its inductive invariant
"item == cf(it)": cf(0) is the entry value and body(cf(it)) == cf(it + 1) is
emitted as an obligation.  Items that fit no pattern stay uninterpreted
functions of `it` defined by the transition itself (exact, no approximation).
"""
import ast
import z3
from .values import *
from .interp import Oblig
from .prover import _has_var as prover_has_var
from .prover import SUMS, SELS, check_sat, QUICK_RLIMIT, free_consts, fun_decls


class Cell:
    "a carried item"
    def __init__(self, key, init, kind):
        self.key = key              # ('name', n) | ('cell', id)
        self.init = init            # scalar or ArrVal or tuple
        self.kind = kind            # 'scalar' | 'array'
        self.skind = None           # scalar kind (int/real/bool)
        self.cf = None              # closed form: it -> value
        self.shape_cf = None        # per dim closed forms (arrays)
        self.elem_cf = None
        self.how = None
        self.fn = None              # uninterpreted: it -> scalar
        self.afn = None             # it, idx -> elem
        self.dimfn = None
        self.shape_carried = [False] * (init.ndim if kind == 'array' else 0)
        self.is_ref = False
        self.focus = None           # (list value, index): element of a list


_CK = {}
_COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD,
         z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF}


def canon(t):
    "key that ignores the order of the arguments of commutative operators"
    i = t.get_id()
    if i in _CK and _CK[i][0].eq(t):
        return _CK[i][1]
    if z3.is_quantifier(t):
        k = ('q', t.is_forall(), t.num_vars(), canon(t.body()))
    elif z3.is_var(t):
        k = ('v', z3.get_var_index(t))
    else:
        ks = [canon(c) for c in t.children()]
        d = t.decl()
        if d.kind() in _COMM:
            ks.sort()
        k = (d.name() if ks else t.sexpr(), d.kind()) + tuple(ks)
    k = hash(k)
    _CK[i] = (t, k)
    return k


def store_chain(v):
    "stores applied to a list value, newest first, and the value below them"
    out = []
    while v.store is not None:
        out.append(v.store)
        v = v.store[0]
    return out, v


class LoopSummary:
    def __init__(self, ip, node, n, bind, test):
        self.ip, self.node, self.n = ip, node, n
        self.bind, self.test = bind, test
        self.line = getattr(node, 'lineno', 0)

    # -- one exploration of the body at generic iteration --------------------
    def explore(self, collect, prior=None):
        ip = self.ip
        frame = ip.frame
        it = self.it
        env0 = dict(self.env0)
        heap0 = dict(self.heap0)
        for b in self.bound:
            env0[b] = Poison(b)
        for c in self.cells:
            v = self.value_at(c, it)
            if c.key[0] == 'name':
                if c.kind == 'array' and c.is_ref:
                    rid = c.tmp_id
                    heap0[rid] = v
                    env0[c.key[1]] = Ref(rid)
                else:
                    env0[c.key[1]] = v
            else:
                heap0[c.key[1]] = self.unfocus(c, v)
        ip.heap = heap0
        n = self.n
        facts = [it >= 0]
        if n is not None:
            facts.append(it < Z(n))
        if prior is not None:
            facts += prior

        def run():
            ip.frame.env = dict(env0)
            ip.pc.extend(facts)

            def body():
                if self.test is not None:
                    if not ip.branch(ip.cond(self.test)):
                        raise _ExitNormal()
                if self.bind is not None:
                    self.bind(it)
                ip.block(self.node.body)
            try:
                return ip.signal(body)
            except _ExitNormal:
                return 'done', None, dict(ip.frame.env)
        saved_collect, saved_loc = ip.collect, ip.loc
        ip.collect = collect and saved_collect
        try:
            paths = ip.explore(run)
        finally:
            ip.collect = saved_collect
            ip.frame = frame
            ip.loc = saved_loc
            ip.heap = dict(self.heap0)
            ip.frame.env = dict(self.env0)
        k = len(facts)
        for p in paths:
            p.pcs = p.pcs[k:]
        self.entry_heap = heap0
        self.entry_env = env0
        return paths

    def unfocus(self, c, v):
        if c.focus is None:
            return v
        lst, i = c.focus
        return self.ip.store_list(lst, i, v)

    def find_focus(self, paths, i):
        "the one element of list cell i that the body updates, if so"
        v0 = self.heap0[i]
        if not (isinstance(v0, ArrVal) and v0.kind == 'obj'):
            return None
        idx = None
        for p in paths:
            if p.kind not in ('normal', 'continue'):
                continue
            v = p.heap.get(i)
            if v is self.entry_heap.get(i):
                continue
            if not isinstance(v, ArrVal):
                return None
            ch, base = store_chain(v)
            ch0, base0 = store_chain(self.entry_heap[i])
            if base.get is not base0.get or not ch:
                return None
            ch = ch[:len(ch) - len(ch0)]
            for _, j, nv in ch:
                if not isinstance(nv, ArrVal):
                    return None
                if is_z3(j) and (self.has_local(j) or self.occurs(
                        j, self.own_fns()) or any(
                            x.eq(self.it) for x in free_consts(j))):
                    return None
                if idx is None:
                    idx = j
                elif not (j == idx if not is_z3(j) and not is_z3(idx)
                          else is_z3(j) and is_z3(idx) and j.eq(idx)):
                    return None
        if idx is None:
            return None
        e = v0.get((idx,))
        if not isinstance(e, ArrVal):
            return None
        return idx, e

    def value_at(self, c, it):
        if c.kind == 'scalar':
            if c.cf is not None:
                return c.cf(it)
            return simp(c.fn(Z(it)))
        if c.cf is not None:
            return c.cf(it)
        shape = []
        for d, s in enumerate(c.init.shape):
            if not c.shape_carried[d]:
                shape.append(s)
            elif c.shape_cf and c.shape_cf[d] is not None:
                shape.append(c.shape_cf[d](it))
            else:
                shape.append(simp(c.dimfn[d](Z(it))))
        if c.akind == 'obj':
            def unknown(ix):
                raise Unsupported('read of a list filled by the loop')
            return ArrVal(shape, unknown, 'obj', True)
        return ArrVal(shape, lambda ix: simp(c.afn(
            *([Z(it)] + [Z(x) for x in ix]))), c.akind, c.init.is_list)

    def new_cell(self, key, v):
        ip = self.ip
        if is_scalar(v):
            c = Cell(key, v, 'scalar')
            c.skind = kind_of(v)
            self.mk_fn(c)
            return c
        if isinstance(v, Ref) and isinstance(ip.heap[v.id],
                                             (ArrVal, ListVal)) or \
                isinstance(v, (ArrVal, View, ElemRef)):
            a = ip.arr(v)
            if a.kind == 'obj':
                probe = None
                if not is_z3(a.shape[0]) and a.shape[0] == 0:
                    probe = None
                c = Cell(key, a, 'array')
                c.akind = 'obj'
                c.is_ref = True
            else:
                c = Cell(key, a, 'array')
                c.akind = a.kind
                c.is_ref = True
            self.mk_fn(c)
            return c
        raise Unsupported('carried value of type %r (%s)' % (type(v), key))

    def mk_fn(self, c):
        ip = self.ip
        nm = 'L%d_%s' % (self.line, c.key[1])
        if c.kind == 'scalar':
            c.fn = ip.fresh_fn(nm, I, sort_of_kind(c.skind))
        else:
            if c.akind != 'obj':
                c.afn = ip.fresh_fn(nm, *([I] * (1 + c.init.ndim) + [
                    sort_of_kind(c.akind)]))
            c.dimfn = [ip.fresh_fn(nm + '_n%d' % d, I, I)
                       for d in range(c.init.ndim)]

    # -- main ----------------------------------------------------------------
    def run(self):
        ip = self.ip
        frame = ip.frame
        from .exec import assigned_names
        self.env0 = dict(frame.env)
        self.heap0 = dict(ip.heap)
        outer_mark = ip.local_mark
        self.bound = assigned_names(
            [self.node] if isinstance(self.node, ast.For) else
            ([self.node]))
        self.it = ip.fresh('it', I)
        mark = ip.ctr
        self.cells = []
        self.n = N = self.simple_length(self.n)
        # ---- discovery of the carried items
        guard = 0
        while True:
            guard += 1
            if guard > 40:
                raise Unsupported('loop discovery diverges')
            ip.local_mark = mark
            try:
                paths = self.explore(False)
            except PoisonRead as e:
                if e.name not in self.env0 or isinstance(
                        self.env0[e.name], (Poison,)):
                    ip.frame = frame
                    ip.frame.env = dict(self.env0)
                    ip.heap = dict(self.heap0)
                    raise
                ip.frame = frame
                v = self.env0[e.name]
                if isinstance(v, MaybeUndef):
                    v = v.value
                if (isinstance(v, Ref) and isinstance(
                        self.heap0[v.id], (ArrVal, ListVal))):
                    # an array updated in place keeps its identity: first
                    # try without rebinding
                    ip.heap = dict(self.heap0)
                    self.bound = [b for b in self.bound if b != e.name]
                    self.rebind_try = getattr(self, 'rebind_try', set())
                    self.rebind_try.add(e.name)
                    continue
                ip.heap = dict(self.heap0)
                self.cells.append(self.new_cell(('name', e.name), v))
                continue
            changed = self.discover(paths)
            if changed:
                continue
            break
        # ---- closed forms
        rounds = 0
        while any(c.cf is None for c in self.cells):
            rounds += 1
            ip.local_mark = mark
            if not self.resolve(paths):
                break
            self.round_un = frozenset()
            paths = self.explore(False)
            if rounds > 12:
                break
        self.round_un = frozenset()
        self.use_user_invariants(paths)
        # ---- final pass with everything known
        it = self.it
        exits0 = [p for p in paths if p.kind in ('break', 'return', 'raise',
                                                 'done')]
        prior = []
        E_it = Or(*[ip.close_pcs(p.pcs, [it]) for p in exits0])
        jj = ip.fresh('pj', I)
        if E_it is not False:
            nE = Z(Not(z3.substitute(Z(E_it), (it, jj))))
            f = ip.forall_term(jj, z3.Implies(z3.And(jj >= 0, jj < it), nE))
            if f is not True:
                prior = [f]
        axioms = self.transition_axioms(paths)
        for a in axioms:
            ip.assume(a)
        ip.local_mark = mark
        paths = self.explore(True, prior)
        for p in paths:
            if prior:
                p.pcs = p.pcs
        self.invariant_obligations(paths, prior)
        self.finish(paths, E_it, mark, outer_mark)

    def simple_length(self, n):
        "max(0, n) when the sign of n is known"
        if is_z3(n) and z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE \
                and not z3.is_int_value(n):
            c, a, b = n.children()
            hy = self.ip.qf_pc()
            for v, q in ((a, z3.Not(c)), (b, c)):
                # equal to one branch in every case
                if check_sat(hy + [q, n != v], QUICK_RLIMIT)[0] == 'unsat':
                    return simp(v)
        return n

    def discover(self, paths):
        ip = self.ip
        changed = False
        have = {c.key for c in self.cells}
        for p in paths:
            if p.kind not in ('normal', 'continue'):
                continue
            for i, v in self.heap0.items():
                if p.heap.get(i) is not self.entry_heap.get(i) and \
                        ('cell', i) not in have:
                    v0 = self.heap0[i]
                    if isinstance(v0, (ArrVal, ListVal)):
                        f = self.find_focus(paths, i)
                        if f is not None:
                            c = self.new_cell(('cell', i), f[1])
                            c.focus = (v0, f[0])
                        else:
                            c = self.new_cell(('cell', i), Ref(i))
                        c.is_ref = False
                        self.cells.append(c)
                        have.add(c.key)
                        changed = True
                    elif isinstance(v0, ObjVal):
                        raise Unsupported('object mutated in loop')
                    else:
                        raise Unsupported('container mutated in loop')
            # names left out of `bound` because they hold arrays
            for nm in getattr(self, 'rebind_try', ()):
                a, b = self.env0.get(nm), p.env.get(nm)
                if a is not b and not (isinstance(a, Ref) and isinstance(
                        b, Ref) and a.id == b.id) and \
                        ('name', nm) not in have:
                    c = self.new_cell(('name', nm), a)
                    c.tmp_id = ip.alloc(None).id
                    self.heap0.pop(c.tmp_id, None)
                    ip.heap.pop(c.tmp_id, None)
                    c.is_ref = True
                    self.cells.append(c)
                    have.add(c.key)
                    changed = True
        # kinds and shapes
        for c in self.cells:
            for p in paths:
                if p.kind not in ('normal', 'continue'):
                    continue
                v = self.end_value(c, p)
                if c.kind == 'scalar':
                    if not is_scalar(v):
                        raise Unsupported('carried %s changes type' %
                                          c.key[1])
                    k = join_kind(kind_of(v), c.skind)
                    if k != c.skind and c.cf is None:
                        c.skind = k
                        self.mk_fn(c)
                        changed = True
                else:
                    if not isinstance(v, ArrVal):
                        raise Unsupported('carried %s changes type' %
                                          c.key[1])
                    if v.ndim != c.init.ndim:
                        raise Unsupported('ndim changes in loop')
                    if v.kind != c.akind:
                        empty = (not is_z3(c.init.shape[0]) and
                                 c.init.shape[0] == 0)
                        k = v.kind if empty and c.akind in ('int', 'bool') \
                            and not getattr(c, 'fixedk', False) else \
                            join_kind(v.kind, c.akind)
                        if empty and v.kind == 'obj':
                            k = 'obj'
                        if k == 'obj' and c.akind == 'obj':
                            pass
                        elif k != c.akind:
                            c.akind = k
                            c.fixedk = True
                            if k != 'obj':
                                self.mk_fn(c)
                            changed = True
                    cur = self.value_at_shape(c)
                    for d in range(v.ndim):
                        if c.shape_carried[d]:
                            continue
                        s, t = v.shape[d], cur[d]
                        same = (s.eq(t) if is_z3(s) and is_z3(t)
                                else (not is_z3(s) and not is_z3(t) and
                                      s == t))
                        if not same:
                            if not self.valid(p.pcs, cmp('==', s, t)):
                                c.shape_carried[d] = True
                                changed = True
        return changed

    def value_at_shape(self, c):
        out = []
        for d, s in enumerate(c.init.shape):
            if not c.shape_carried[d]:
                out.append(s)
            elif c.shape_cf and c.shape_cf[d] is not None:
                out.append(c.shape_cf[d](self.it))
            else:
                out.append(simp(c.dimfn[d](Z(self.it))))
        return out

    def end_value(self, c, p):
        ip = self.ip
        if c.key[0] == 'name':
            v = p.env[c.key[1]]
            if c.kind == 'array':
                sv = ip.heap
                ip.heap = p.heap
                try:
                    return ip.arr(v)
                finally:
                    ip.heap = sv
            return v
        v = p.heap[c.key[1]]
        if c.focus is not None:
            e = v.get((c.focus[1],))
            if not isinstance(e, ArrVal):
                raise Unsupported('list element changes type')
            return e
        if isinstance(v, ListVal):
            sv = ip.heap
            ip.heap = p.heap
            try:
                return ip.list_arr(v)
            finally:
                ip.heap = sv
        return v

    def base_hyps(self):
        ip = self.ip
        h = ip.qf_pc() + [self.it >= 0]
        if self.n is not None:
            h.append(self.it < Z(self.n))
        return h

    def valid(self, pcs, goal, extra=()):
        if isinstance(goal, bool):
            return goal
        hy = self.base_hyps() + [p for p in pcs] + list(extra)
        return check_sat(hy + [z3.Not(goal)], QUICK_RLIMIT)[0] == 'unsat'

    round_un = frozenset()

    def unresolved(self):
        names = set(self.round_un)
        for c in self.cells:
            if c.cf is None:
                if c.kind == 'scalar':
                    names.add(c.fn.name())
                else:
                    if c.afn is not None:
                        names.add(c.afn.name())
                    names |= {f.name() for d, f in enumerate(c.dimfn)
                              if not (c.shape_cf and
                                      c.shape_cf[d] is not None)}
        return names

    def occurs(self, t, names):
        return is_z3(t) and bool(fun_decls(t) & names)

    # -- closed forms --------------------------------------------------------
    def resolve(self, paths):
        self.round_un = frozenset()
        normals = [p for p in paths if p.kind in ('normal', 'continue')]
        progress = False
        if not normals:
            # the body never completes: items keep their entry value
            for c in self.cells:
                if c.cf is None:
                    c.cf = lambda i, v=c.init: v
                    c.how = 'entry'
                    progress = True
            return progress
        self.find_frames(normals)
        self.find_deletes(normals)
        self.round_un = frozenset(self.unresolved())
        for c in self.cells:
            if c.cf is not None:
                continue
            if c.kind == 'scalar':
                vals = [([self.rw(q) for q in p.pcs],
                         self.rw(self.end_value(c, p))) for p in normals]
                t0 = simp(c.fn(self.it))
                r = self.resolve_scalar(c.init, c.skind, t0, vals, (), [])
                if r is not None:
                    c.cf, c.how = r
                    progress = True
            else:
                if self.resolve_array(c, normals):
                    progress = True
        return progress

    frames = ()

    def find_frames(self, normals):
        """arrays whose element x is written at one iteration h(x) only: until
        then it keeps its entry value (used to propose closed forms, which are
        checked by their preservation obligations)"""
        ip, it = self.ip, self.it
        self.frames = {}
        for c in self.cells:
            if c.cf is not None or c.kind != 'array' or c.akind == 'obj' \
                    or any(c.shape_carried):
                continue
            xs = [ip.fresh('x', I) for _ in c.init.shape]
            t0 = simp(c.afn(*([it] + xs)))
            conds = []
            try:
                for p in normals:
                    v = self.end_value(c, p)
                    e = to_kind(v.get(tuple(xs)), c.akind)
                    rng = [And(cmp('>=', x, 0), cmp('<', x, s))
                           for x, s in zip(xs, v.shape)]
                    for cond, leaf in self.ite_leaves(e, 0, t0):
                        if is_z3(leaf) and leaf.eq(t0):
                            continue
                        conds.append(And(*(list(p.pcs) + rng + cond)))
            except Unsupported:
                continue
            if not conds or not any(
                    self.occurs(Z(q), {c.afn.name()})
                    for p in normals for q in p.pcs):
                continue
            self.unsel = []
            C = Or(*[self.unselect(q) for q in conds])
            h = self.find_writer(C, xs)
            if h is not None:
                self.frames[c.afn.name()] = (c, h, xs)

    deletes = ()

    def find_deletes(self, normals):
        """arrays whose row n - 1 - it is kept or deleted at iteration it:
        until then rows up to it keep their entry value"""
        ip, it = self.ip, self.it
        self.deletes, self.delete_K = {}, {}
        if self.n is None:
            return
        for c in self.cells:
            if c.cf is not None or c.kind != 'array' or c.akind == 'obj' \
                    or not c.shape_carried[0] or any(c.shape_carried[1:]) \
                    or c.shape_cf is not None:
                continue
            if not self.valid([], cmp('==', c.init.shape[0], self.n)):
                continue
            cur = simp(c.dimfn[0](it))
            xs = [ip.fresh('x', I) for _ in c.init.shape]
            m = sub(self.n, it)             # rows not yet visited
            pos = sub(m, 1)
            t0 = simp(c.afn(*([it] + xs)))
            t1 = simp(c.afn(*([it, xs[0] + 1] + xs[1:])))
            gone, ok = [], True
            try:
                for p in normals:
                    v = self.end_value(c, p)
                    rng = [cmp('>=', xs[0], 0), cmp('<', xs[0], v.shape[0]),
                           cmp('<=', m, cur)]
                    cs = list(p.pcs) + rng
                    e = to_kind(v.get(tuple(xs)), c.akind)
                    if self.valid(p.pcs, cmp('==', v.shape[0], cur)):
                        ok = self.valid(cs, cmp('==', e, t0))
                    elif self.valid(p.pcs, cmp('==', v.shape[0],
                                               sub(cur, 1))):
                        ok = self.valid(cs, cmp('==', e, ite(
                            cmp('<', xs[0], pos), t0, t1)))
                        gone.append(p)
                    else:
                        ok = False
                    if not ok:
                        break
            except Unsupported:
                continue
            if ok and gone:
                self.deletes[c] = gone
                self.frames[c.afn.name()] = (
                    c, Z(sub(sub(self.n, 1), xs[0])), xs)

    def resolve_delete(self, c, normals):
        """rows filtered from the last one to the first one: after i
        iterations the rows below m = n - i are the entry rows, followed by
        the entry rows k >= m with K(k), in order"""
        ip, it = self.ip, self.it
        un = self.unresolved()
        com = self.common_pcs([(p.pcs, None) for p in normals])
        K = None
        for side in (0, 1):
            gone = self.deletes[c]
            ps = gone if side else [p for p in normals if p not in gone]
            K = self.delete_cond(c, ps, com, un)
            if K is not None:
                break
        if K is None:
            return False
        if side:
            K = Not(K)
        y = ip.fresh('dk', I)
        n = self.n
        K = z3.simplify(z3.substitute(Z(K), (it, Z(sub(sub(n, 1), y)))))
        # arrays cut together share the condition
        key = tuple(id(p) for p in self.deletes[c])
        if key in self.delete_K:
            K = self.delete_K[key]
            y = K[0]
            K = K[1]
        self.delete_K[key] = (y, K)
        cnt, sel = ip.filter_sel(y, K, n)
        one = z3.If(K, z3.IntVal(1), z3.IntVal(0))

        def rank(m):
            return SUMS.make(y, one, 0, m)
        final = self.flatten_filter(c, y, K)

        def shape(i):
            if is_z3(i) and i.eq(Z(n)) or not is_z3(i) and not is_z3(n) \
                    and i == n:
                return final[0] if final else cnt
            m = simp(Z(sub(n, i)))
            return add(m, SUMS.make(y, one, m, n))

        def cf(i):
            sh = shape(i)
            last = is_z3(i) and i.eq(Z(n)) or not is_z3(i) and \
                not is_z3(n) and i == n
            m = 0 if last else simp(Z(sub(n, i)))

            def get(ix):
                x = ix[0]
                if last and final:
                    return to_kind(final[1](ix), c.akind)
                w = x if last else add(rank(m), sub(x, m))
                hi = to_kind(c.init.get((sel(w),) + tuple(ix[1:])), c.akind)
                if last:
                    return hi
                lo = to_kind(c.init.get(tuple(ix)), c.akind)
                return ite(cmp('<', x, m), lo, hi)
            return ArrVal((sh,) + c.init.shape[1:], get, c.akind,
                          c.init.is_list)
        c.shape_cf = [shape] + [None] * (c.init.ndim - 1)
        c.cf, c.how = cf, 'delete'
        return True

    def delete_cond(self, c, paths, com, un):
        ip, it = self.ip, self.it
        conds = []
        for p in paths:
            cs = [self.own_bounds(c, self.rw(q)) for q in p.pcs
                  if Z(q).get_id() not in com]
            cs = [Z(q) for q in cs if q is not True]
            if any(self.occurs(q, un) or self.has_local(q) for q in cs):
                return None
            conds.append(And(*cs))
        return Z(Or(*conds))

    def own_bounds(self, c, t):
        """comparisons with the current number of rows, decided by the
        invariant that the rows not yet visited are still there"""
        if not is_z3(t):
            return t
        subs, stack, seen = [], [t], set()
        for d in self.deletes:
            cur = simp(d.dimfn[0](self.it))
            inv = [Z(cmp('>=', cur, sub(self.n, self.it)))]
            stack = [t]
            while stack:
                e = stack.pop()
                if e.get_id() in seen:
                    continue
                if z3.is_quantifier(e):
                    stack.append(e.body())
                    continue
                if z3.is_app(e) and e.decl().kind() in (
                        z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                        z3.Z3_OP_EQ) and e.arg(0).sort() == I:
                    if not self.occurs(e, {d.dimfn[0].name()}) or \
                            prover_has_var(e):
                        continue
                    if self.valid(inv, e):
                        subs.append((e, z3.BoolVal(True)))
                    elif self.valid(inv, z3.Not(e)):
                        subs.append((e, z3.BoolVal(False)))
                    seen.add(e.get_id())
                    continue
                if z3.is_app(e):
                    stack.extend(e.children())
        return simp(z3.substitute(t, *subs)) if subs else t

    def flatten_filter(self, c, y, K):
        """entry rows that are themselves the rows of an earlier filter:
        filter(K, filter(C, rows)) = filter(C and K, rows)"""
        ip = self.ip
        if not is_z3(self.n):
            return None
        x = ip.fresh('fx', I)
        ps = [ip.fresh('fx', I) for _ in c.init.shape[1:]]
        e = c.init.get(tuple([x] + ps))
        a = self.sel_of(e, x)
        if a is None:
            return None
        d = SELS[a.decl().name()]
        sub_ = list(zip(d.params, a.children()[:-1]))
        for n0 in d.ns:
            n0 = z3.substitute(n0, *sub_) if sub_ else n0
            if Z(simp(d.rank(n0, sub_))).eq(Z(simp(self.n))):
                break
        else:
            return None
        k = ip.fresh('dk', I)
        ay = z3.substitute(a, (x, y))
        K2 = z3.substitute(K, (ay, k))
        if any(v.eq(y) for v in free_consts(K2)):
            return None
        both = z3.simplify(z3.And(d.at(k, sub_), K2))
        cnt, sel = ip.filter_sel(k, both, n0)
        h = ip.fresh('fh', I)
        eh = z3.substitute(Z(e), (a, h))
        if any(v.eq(x) for v in free_consts(eh)):
            return None

        def get(ix):
            return simp(z3.substitute(eh, *(
                [(h, Z(sel(ix[0])))] + [(q, Z(v)) for q, v in zip(
                    ps, ix[1:])])))
        return cnt, get

    def sel_of(self, e, x):
        "the enumeration term SEL(.., x) of e"
        stack, seen = [e] if is_z3(e) else [], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            if t.decl().name() in SELS and t.num_args() and \
                    t.children()[-1].eq(x):
                return t
            stack.extend(t.children())
        return None

    def rw(self, t):
        "own elements not yet written replaced by their entry values"
        if not self.frames or not is_z3(t):
            return t
        if not self.occurs(t, set(self.frames)):
            return t
        subs, stack, seen = [], [t], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                vs = [self.ip.fresh(e.var_name(k), e.var_sort(k))
                      for k in range(e.num_vars())]
                b = z3.substitute_vars(e.body(), *reversed(vs))
                b2 = self.rw(b)
                if b2 is not b:
                    q = z3.ForAll if e.is_forall() else z3.Exists
                    subs.append((e, q(vs, Z(b2))))
                continue
            if not z3.is_app(e):
                continue
            f = self.frames.get(e.decl().name())
            if f is not None and e.arg(0).eq(self.it):
                c, h, xs = f
                ps = e.children()[1:]
                hh = z3.substitute(h, *zip(xs, ps))
                if self.valid([], Z(cmp('>=', hh, self.it))):
                    subs.append((e, Z(to_kind(c.init.get(tuple(ps)),
                                              c.akind))))
                    continue
            stack.extend(e.children())
        return simp(z3.substitute(t, *subs)) if subs else t

    def merge_vals(self, vals, params=()):
        r = None
        for pcs, v in reversed(vals):
            if r is None:
                r = v
                continue
            g = simp(z3.And(*[Z(p) for p in pcs])) if pcs else True
            if self.has_local(g) and not self.has_local(v):
                g = self.ip.close_pcs([g], [self.it] + list(params))
            r = ite(g, v, r)
        return r

    def join_paths(self, vals):
        """(A and u -> v) and (A and not u -> v)  =>  (A -> v)"""
        vals = [([p for p in pcs if p is not True], v) for pcs, v in vals]

        def same(a, b):
            if is_z3(a) and is_z3(b):
                return a.eq(b) or canon(a) == canon(b)
            return not is_z3(a) and not is_z3(b) and \
                type(a) is type(b) and a == b
        again = True
        while again and len(vals) > 1:
            again = False
            for i in range(len(vals)):
                for j in range(i + 1, len(vals)):
                    (pa, va), (pb, vb) = vals[i], vals[j]
                    if not (is_scalar(va) and is_scalar(vb)) or \
                            not same(va, vb):
                        continue
                    ia = {canon(Z(q)): Z(q) for q in pa}
                    ib = {canon(Z(q)): Z(q) for q in pb}
                    da = [q for k, q in ia.items() if k not in ib]
                    db = [q for k, q in ib.items() if k not in ia]
                    if len(da) <= 1 and len(db) <= 1:
                        if not da or not db:
                            rest = pa if not da else pb
                        elif same(simp(z3.Not(da[0])), simp(db[0])):
                            rest = [q for q in pa
                                    if not Z(q).eq(da[0])]
                        else:
                            continue
                        vals[i] = (rest, va)
                        del vals[j]
                        again = True
                        break
                if again:
                    break
        return vals

    def subst_it(self, t, e):
        if not is_z3(t):
            return t
        return simp(z3.substitute(t, (self.it, Z(e))))

    def has_local(self, t):
        "terms that mention symbols local to the iteration cannot be lifted"
        if not is_z3(t):
            return False
        ip = self.ip
        for x in free_consts(t):
            if not x.eq(self.it) and ip.is_local_const(x) and \
                    x.decl().name() not in self.holes:
                return True
        un = self.unresolved()
        return any(f not in un and f not in self.own_fns()
                   for f in ip.local_funs(t))

    holes = ()
    unsel = ()

    def own_fns(self):
        s = set()
        for c in self.cells:
            if c.fn is not None:
                s.add(c.fn.name())
            if c.afn is not None:
                s.add(c.afn.name())
            for f in c.dimfn or ():
                s.add(f.name())
        return s

    def resolve_scalar(self, init, kind, t0, vals, hyps, params):
        """closed form of a scalar recurrence; params: placeholders the
        closed form is parameterised over (array elements).  Returns
        (cf(it, *params), how) or None"""
        un = self.unresolved()
        ip = self.ip
        keep, sets = [], []
        for pcs, v in vals:
            if is_z3(v) and is_z3(t0) and v.eq(t0):
                keep.append((pcs, v))
            elif self.valid(list(pcs) + list(hyps), cmp('==', v, t0)):
                keep.append((pcs, v))
            else:
                sets.append((pcs, v))
        if not sets:
            if params:
                return (lambda i, *ps: init(*ps)), 'unchanged'
            return (lambda i: init), 'unchanged'
        initf = init if params else (lambda: init)
        # leaves
        leaves = []
        sets = self.join_paths(sets)
        keep = self.join_paths(keep)
        for pcs, v in sets:
            for cond, leaf in self.ite_leaves(v, 0, t0):
                cs = list(pcs) + cond
                if is_z3(leaf) and leaf.eq(t0):
                    keep.append((cs, leaf))
                elif self.infeasible(cs + list(hyps)):
                    continue
                elif self.valid(cs + list(hyps), cmp('==', leaf, t0)):
                    keep.append((cs, leaf))
                else:
                    if params:
                        leaf = self.own_rewrite(leaf, cs, t0, t0)
                    leaves.append((cs, leaf))
        # running sum
        if kind in ('int', 'real'):
            r = self.try_sum(initf, kind, t0, leaves, keep, hyps, params, un,
                             self.common_pcs(vals))
            if r is not None:
                return r
        # last value (assigned on every path)
        s = self.merge_vals(leaves, params) if not keep else None
        if not keep and not self.occurs(s, un) and not self.has_local(s):
            def cf(i, *ps, s=s):
                if not is_z3(i) and i == 0:
                    return initf(*ps)
                prev = self.subst_it(s, sub(i, 1))
                prev = self.inst(prev, params, ps)
                if is_z3(i) and i.eq(self.it) or True:
                    return ite(cmp('==', i, 0), initf(*ps), prev)
            return cf, 'last-value'
        # conditional constant (flag)
        if leaves and all(not self.occurs(l, un) and not self.has_local(l)
                          for _, l in leaves):
            first = leaves[0][1]
            same = all((not is_z3(l) and not is_z3(first) and l == first and
                        type(l) == type(first)) or
                       (is_z3(l) and is_z3(first) and l.eq(first))
                       for _, l in leaves)
            C = Or(*[And(*cs) for cs, _ in leaves])
            if same and not any(x.eq(self.it) for x in free_consts(
                    Z(first))) and not self.occurs(Z(C), un):
                k = ip.fresh('fl', I)
                Cc = ip.close_pcs([Z(C)], [self.it] + list(params))

                def cf(i, *ps, Cc=Cc, K=first):
                    b = self.inst(z3.substitute(Z(Cc), (self.it, k)),
                                  params, ps)
                    ex = ip.exists_term(k, z3.And(
                        k >= 0, k < Z(i), Z(b)))
                    return ite(ex if isinstance(ex, bool) else simp(ex),
                               K, initf(*ps))
                return cf, 'flag'
        return None

    def common_pcs(self, vals):
        """conditions met on every path that completes an iteration: they
        held at each earlier iteration and need no mention in an invariant"""
        com = None
        for pcs, _ in vals:
            ids = {Z(q).get_id() for q in pcs}
            com = ids if com is None else com & ids
        self.keep_alive = vals
        return com or set()

    def inst(self, t, params, ps):
        if not params or not is_z3(t):
            return t
        return simp(z3.substitute(t, *[(p, Z(v))
                                       for p, v in zip(params, ps)]))

    def infeasible(self, cs):
        hy = self.base_hyps() + [Z(c) for c in cs]
        return check_sat(hy, QUICK_RLIMIT)[0] == 'unsat'

    def ite_leaves(self, v, depth=0, t0=None):
        if is_z3(v) and z3.is_app(v) and \
                v.decl().kind() == z3.Z3_OP_ITE and depth < 8:
            c, a, b = v.children()
            return ([([c] + x, l) for x, l in self.ite_leaves(a, depth + 1, t0)]
                    + [([z3.Not(c)] + x, l)
                       for x, l in self.ite_leaves(b, depth + 1, t0)])
        if is_z3(v) and (z3.is_or(v) or z3.is_and(v)) and \
                depth < 8 and t0 is not None and is_z3(t0):
            cs = v.children()
            rest = [x for x in cs if not x.eq(t0)]
            if rest and len(rest) < len(cs):
                o = z3.is_or(v)
                g = z3.Or(*rest) if o else z3.And(*rest)
                g = simp(g)
                if is_z3(g):
                    ng = simp(z3.Not(g))
                    return [([g if o else ng], o), ([ng if o else g], t0)]
        return [([], v)]

    def try_sum(self, initf, kind, t0, leaves, keep, hyps, params, un,
                com=()):
        ip = self.ip
        zero = z3.IntVal(0) if kind == 'int' else z3.RealVal(0)
        d = None
        own = t0.decl() if is_z3(t0) and z3.is_app(t0) else None
        parts = []
        for cs, l in leaves:
            dl = sub(l, t0)
            if self.occurs(dl, un):
                # replace the running value by 0 in the increment, then verify
                e = z3.substitute(Z(to_kind(l, kind)), (t0, zero))
                e = simp(e)
                if self.occurs(e, un):
                    return None
                if not self.valid(list(cs) + list(hyps), cmp(
                        '==', l, add(t0, e))):
                    return None
                dl = e
            if self.has_local(dl):
                return None
            parts.append((cs, dl))
        # conditions must not depend on unresolved state
        r = 0 if kind == 'int' else to_kind(0, 'real')
        inc = r
        allp = [(cs, r) for cs, _ in keep] + parts
        if len(allp) == 1:
            inc = allp[0][1]
        else:
            inc = None
            # prefer ending with a "keep" default
            seq = parts
            inc = r if keep else parts[-1][1]
            if not keep:
                seq = parts[:-1]
            for cs, dl in reversed(seq):
                c = And(*[q for q in cs if Z(q).get_id() not in com])
                if self.occurs(Z(c), un) or self.has_local(Z(c)):
                    c2 = ip.close_pcs([Z(c)], [self.it] + list(params)) \
                        if not self.occurs(Z(c), un) else None
                    if c2 is None or self.has_local(Z(c2)):
                        return None
                    c = c2
                inc = ite(simp(Z(c)), dl, inc)
        if self.occurs(Z(inc), un):
            return None

        kk = ip.fresh('sm', I)

        def summed(b, i):
            if not is_z3(b) or not any(x.eq(kk) for x in free_consts(b)):
                return mul(b, i)
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and \
                    not any(x.eq(kk) for x in free_consts(b.arg(0))):
                return ite(b.arg(0), summed(simp(b.arg(1)), i),
                           summed(simp(b.arg(2)), i))
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and \
                    z3.is_and(b.arg(0)):
                cs = b.arg(0).children()
                inv = [q for q in cs if not any(
                    x.eq(kk) for x in free_consts(q))]
                if inv:
                    dep = [q for q in cs if not any(q.eq(y) for y in inv)]
                    b2 = ite(And(*dep), simp(b.arg(1)), simp(b.arg(2)))
                    return ite(And(*inv), summed(b2, i),
                               summed(simp(b.arg(2)), i))
            return SUMS.make(kk, Z(to_kind(b, kind)), 0, i)

        # the iteration is renamed before the element indices are put in:
        # they may mention the current iteration themselves
        inck = z3.substitute(inc, (self.it, kk)) if is_z3(inc) else inc

        def cf(i, *ps):
            return add(initf(*ps), summed(self.inst(inck, params, ps), i))
        return cf, 'sum'

    def resolve_array(self, c, normals):
        ip = self.ip
        # shape first
        if c in self.deletes and self.resolve_delete(c, normals):
            return True
        for d in range(c.init.ndim):
            if c.shape_carried[d] and not (c.shape_cf and
                                           c.shape_cf[d] is not None):
                vals = [(p.pcs, self.end_value(c, p).shape[d])
                        for p in normals]
                t0 = simp(c.dimfn[d](self.it))
                if c.init.ndim == 1 and self.resolve_filter(c, normals):
                    return True
                r = self.resolve_scalar(c.init.shape[d], 'int', t0, vals,
                                        (), [])
                if r is None:
                    return False
                if c.shape_cf is None:
                    c.shape_cf = [None] * c.init.ndim
                c.shape_cf[d] = r[0]
                return True
        if c.akind == 'obj':
            return self.resolve_obj_list(c, normals)
        if c in self.deletes and self.resolve_delete(c, normals):
            return True
        xs = [ip.fresh('x', I) for _ in c.init.shape]
        self.holes = {x.decl().name() for x in xs}
        try:
            return self._resolve_elems(c, normals, xs)
        finally:
            self.holes = ()

    def resolve_filter(self, c, normals):
        """items appended at the iterations that meet a condition:
        the entry items, then g(j) for the j < it with C(j) in order"""
        ip, it = self.ip, self.it
        if self.n is None or len(normals) < 2:
            return False
        un = self.unresolved()
        cur = simp(c.dimfn[0](it))
        grow, same = [], []
        for p in normals:
            v = self.end_value(c, p)
            if self.valid(p.pcs, cmp('==', v.shape[0], cur)):
                same.append(p)
            elif self.valid(p.pcs, cmp('==', v.shape[0], add(cur, 1))):
                grow.append(p)
            else:
                return False
        if not grow or not same:
            return False
        com = self.common_pcs([(p.pcs, None) for p in normals])
        conds, gs = [], []
        for p in grow:
            cs = [q for q in p.pcs if Z(q).get_id() not in com]
            if any(self.occurs(Z(q), un) for q in cs):
                return False
            cc = ip.close_pcs([Z(q) for q in cs], [it])
            if self.has_local(Z(cc)):
                return False
            v = self.end_value(c, p)
            g = v.get((cur,))
            if c.akind == 'obj':
                ch, base = store_chain(v)
                if base.get is not self.entry_value(c).get or len(ch) != 1:
                    return False
                if is_z3(g) or not is_scalar(g):
                    return False
            else:
                g = to_kind(g, c.akind)
                if self.occurs(g, un) or self.has_local(g):
                    return False
            conds.append(cc)
            gs.append(g)
        C = Z(simp(Z(Or(*conds))))
        G = gs[-1]
        for g, cc in list(zip(gs, conds))[:-1][::-1]:
            G = ite(simp(Z(cc)), g, G)
        k = ip.fresh('fk', I)
        Ck = z3.substitute(C, (it, k))
        cnt, sel = ip.filter_sel(k, Ck, self.n)
        one = z3.If(Ck, z3.IntVal(1), z3.IntVal(0))
        n0 = c.init.shape[0]

        def shape(i):
            return add(n0, SUMS.make(k, one, 0, i))

        def init(x):
            if not is_z3(n0) and n0 == 0:
                return {'int': 0, 'real': to_kind(0, 'real'),
                        'bool': False}.get(c.akind)
            return to_kind(c.init.get((x,)), c.akind)

        def at(ix):
            x = ix[0]
            w = sub(x, n0)
            g = self.subst_it(G, sel(w))
            cc = cmp('>=', w, 0)
            if not is_z3(n0) and n0 == 0:
                return g
            return ite(cc, g, init(x))
        c.shape_cf = [shape]
        c.cf = lambda i: ArrVal((shape(i),), at, c.akind, c.init.is_list)
        c.how = 'filter'
        return True

    def _resolve_elems(self, c, normals, xs):
        ip = self.ip
        it = self.it
        # the element x of the array *after* the iteration
        cur = self.value_at(c, it)
        vals = []
        hyps = []
        for p in normals:
            v = self.end_value(c, p)
            rng = [And(cmp('>=', x, 0), cmp('<', x, s))
                   for x, s in zip(xs, v.shape)]
            e = v.get(tuple(xs))
            e = self.rw(to_kind(e, c.akind))
            vals.append(([self.rw(q) for q in p.pcs] +
                         [r for r in rng if r is not True], e))
        t0 = simp(c.afn(*([it] + xs)))

        def init(*ps):
            a = c.init
            if not is_z3(a.shape[0]) and a.shape[0] == 0:
                return {'int': 0, 'real': to_kind(0, 'real'),
                        'bool': False}[c.akind]
            return to_kind(a.get(tuple(ps)), c.akind)
        shapef = (lambda i: [
            (c.shape_cf[d](i) if c.shape_carried[d] else s)
            for d, s in enumerate(c.init.shape)])
        un = self.unresolved()
        # element-wise map: paths/leaves that set x at this iteration
        mp = self.try_map(c, vals, t0, xs, un, init)
        if mp is None and not any(c.shape_carried):
            mp = self.try_prefix(c, vals, t0, xs, un, init)
        if mp is None and not any(c.shape_carried):
            r = self.resolve_scalar(init, c.akind, t0, vals, (), xs)
            if r is not None:
                mp = (lambda i, *ps: r[0](i, *ps)), r[1]
        if mp is None:
            return False
        f, how = mp

        def cf(i):
            return ArrVal(shapef(i), lambda ix: f(i, *ix), c.akind,
                          c.init.is_list)
        c.cf, c.how = cf, how
        return True

    def try_map(self, c, vals, t0, xs, un, init):
        ip, it = self.ip, self.it
        leaves, keep = [], 0
        for pcs, v in vals:
            for cond, leaf in self.ite_leaves(v, 0, t0):
                cs = list(pcs) + cond
                if is_z3(leaf) and leaf.eq(t0):
                    keep += 1
                    continue
                if self.infeasible(cs):
                    continue
                if self.valid(cs, cmp('==', leaf, t0)):
                    keep += 1
                    continue
                if self.occurs(leaf, un):
                    # an element written once: its head value is the entry
                    # value (checked by the preservation obligation)
                    leaf = self.own_to_init(c, leaf, cs, xs, init)
                if self.occurs(leaf, un) or self.has_local(leaf):
                    return None
                leaves.append((cs, leaf))
        if not leaves:
            return None
        leaves = self.join_paths(leaves)
        conds = []
        for cs, leaf in leaves:
            if any(self.occurs(Z(q), un) for q in cs):
                return None
            cc = ip.close_pcs([Z(q) for q in cs], [it] + xs)
            if self.has_local(Z(cc)):
                return None
            conds.append(cc)
        self.unsel = []
        conds = [self.unselect(cc) for cc in conds]
        C = Or(*conds)
        # iteration that writes x: it == h(x)
        h = self.find_writer(C, xs)
        if h is None:
            return None
        G = leaves[-1][1]
        for (cs, leaf), cc in list(zip(leaves, conds))[:-1][::-1]:
            G = ite(simp(Z(cc)), leaf, G)

        Ch, rank = self.subst_it(C, h), False
        for (a, x) in self.unsel:
            # h is the rank of x in the enumeration: sel(rank(x)) == x
            b = z3.substitute(a, (it, Z(h)))
            if is_z3(Ch) and self.unsel_rank(a, x) is not None and \
                    Z(simp(self.unsel_rank(a, x))).eq(Z(simp(h))):
                Ch = simp(z3.substitute(Ch, (b, x), (z3.simplify(b), x)))
                rank = True

        def f(i, *ps):
            hh = self.inst(h, xs, ps)
            if rank and is_z3(i) and i.eq(Z(self.n)):
                # every element of the enumeration has been visited
                cond = self.inst(Ch, xs, ps)
            else:
                cond = And(cmp('>=', hh, 0), cmp('<', hh, i),
                           self.inst(Ch, xs, ps))
            cond = simp(cond) if is_z3(cond) else cond
            g = self.inst(self.subst_it(G, hh), xs, ps)
            if cond is True:
                return g
            return ite(cond, g, init(*ps))
        return f, 'map'

    def try_prefix(self, c, vals, t0, xs, un, init):
        """running totals: the element written at an iteration is the one
        before it plus an increment (the proposed closed form is checked by
        its preservation obligation)"""
        it = self.it
        if c.akind not in ('int', 'real') or self.n is None:
            return None
        new = []
        for pcs, v in vals:
            for cond, leaf in self.ite_leaves(v, 0, t0):
                cs = list(pcs) + cond
                if is_z3(leaf) and leaf.eq(t0) or self.infeasible(cs) or \
                        self.valid(cs, cmp('==', leaf, t0)):
                    continue
                new.append((cs, leaf))
        if len(new) != 1:
            return None
        cs, leaf = new[0]
        if not is_z3(leaf):
            return None
        nm = c.afn.name()
        own = []
        stack, seen = [leaf], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.decl().name() == nm and e.num_args() == 1 + len(xs):
                own.append(e)
            stack.extend(e.children())
        if len(own) != 1 or not own[0].arg(0).eq(it):
            return None
        app = own[0]
        inc = simp(Z(leaf) - app)
        if self.occurs(inc, un) or self.has_local(inc):
            return None
        axis = None
        for d, (a, x) in enumerate(zip(app.children()[1:], xs)):
            if self.valid(cs, cmp('==', a, x)):
                continue
            if axis is None and self.valid(cs, cmp('==', a, sub(x, 1))):
                axis = d
                continue
            return None
        if axis is None:
            return None
        conds = [self.unselect(q) for q in cs
                 if not self.occurs(Z(q), un)]
        h = self.find_writer(And(*conds), xs)
        if h is None:
            return None
        off = sub(xs[axis], h)              # first index written
        if any(v.eq(x) for x in xs for v in free_consts(Z(off))):
            return None
        others = [x for d, x in enumerate(xs) if d != axis]
        inc = self.subst_axis(inc, cs, xs, axis, off)
        if inc is None:
            return None

        def f(i, *ps):
            hh = self.inst(h, xs, ps)
            cond = And(cmp('>=', hh, 0), cmp('<', hh, i), *[
                And(cmp('>=', p, 0)) for p in ps])
            base = list(ps)
            base[axis] = sub(off, 1)
            k = self.ip.fresh('pk', I)
            body = z3.substitute(Z(inc), (it, k), *[
                (x, Z(p)) for d, (x, p) in enumerate(zip(xs, ps))
                if d != axis])
            tot = SUMS.make(k, body, 0, add(hh, 1))
            return ite(cond, add(init(*base), tot), init(*ps))
        return f, 'prefix'

    def subst_axis(self, inc, cs, xs, axis, off):
        "the increment as a term over the iteration only"
        r = z3.simplify(z3.substitute(Z(inc), (xs[axis], Z(
            add(self.it, off)))))
        return r

    def own_to_init(self, c, leaf, cs, xs, init):
        t0 = simp(c.afn(*([self.it] + xs)))
        return self.own_rewrite(leaf, cs, t0,
                                Z(to_kind(init(*xs), c.akind)))

    def own_rewrite(self, leaf, cs, t0, new):
        """head-state elements of the array that are, under cs, the element
        t0 = elem(it, xs)"""
        if not is_z3(leaf):
            return leaf
        nm, args = t0.decl().name(), t0.children()
        subs, stack, seen = [], [leaf], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e) or not z3.is_app(e):
                continue
            if e.decl().name() == nm and e.num_args() == len(args):
                if e.arg(0).eq(args[0]) and not e.eq(new) and self.valid(
                        cs, And(*[cmp('==', a, x) for a, x in zip(
                            e.children()[1:], args[1:])])):
                    subs.append((e, new))
                    continue
            stack.extend(e.children())
        if not subs:
            return leaf
        return simp(z3.substitute(leaf, *subs))

    def unsel_rank(self, a, x):
        d = SELS[a.decl().name()]
        return d.rank(x, list(zip(d.params, a.children()[:-1])))

    def unselect(self, C):
        """x == sel(it), for a loop over an enumeration, rewritten as
        it == rank(x) and x in range and c(x)"""
        if not is_z3(C) or self.n is None or not is_z3(self.n):
            return C
        it, subs = self.it, []
        stack, seen = [C], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen or z3.is_quantifier(e):
                continue
            seen.add(e.get_id())
            if z3.is_eq(e):
                for a, x in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    d = SELS.get(a.decl().name()) if z3.is_app(a) else None
                    if d is None or not a.num_args() or \
                            not a.children()[-1].eq(it) or any(
                                v.eq(it) for v in free_consts(x)):
                        continue
                    sub = list(zip(d.params, a.children()[:-1]))
                    for n in d.ns:
                        n = z3.substitute(n, *sub) if sub else n
                        if Z(simp(d.rank(n, sub))).eq(Z(simp(self.n))):
                            self.unsel.append((a, x))
                            subs.append((e, z3.And(
                                it == d.rank(x, sub), x >= 0, x < n,
                                d.at(x, sub))))
                            break
            stack.extend(e.children())
        if not subs:
            return C
        return simp(z3.substitute(C, *subs))

    def find_writer(self, C, xs, it=None, hyps=None):
        "term h(x) with C(it, x) => it == h(x)"
        it = self.it if it is None else it
        if isinstance(C, bool):
            return None
        cands = []
        for x in xs:
            cands.append(x)
        # equations x == e(it) inside C
        stack, seen = [C], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                continue
            if z3.is_app(e) and e.decl().kind() in (
                    z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
                    z3.Z3_OP_GT) and e.num_args() == 2 and \
                    e.arg(0).sort() == I:
                fc = free_consts(e)
                if any(v.eq(it) for v in fc):
                    d = z3.simplify(e.arg(0) - e.arg(1))
                    # d = a*it + rest
                    d0 = z3.substitute(d, (it, z3.IntVal(0)))
                    d1 = z3.substitute(d, (it, z3.IntVal(1)))
                    a = simp(d1 - d0)
                    if a == 1:
                        cands.append(simp(-d0))
                        cands.append(simp(-d0 - 1))
                        cands.append(simp(-d0 + 1))
                    elif a == -1:
                        cands.append(simp(d0))
                        cands.append(simp(d0 - 1))
                        cands.append(simp(d0 + 1))
            stack.extend(e.children())
        tried = set()
        for h in cands:
            if not is_z3(h):
                h = z3.IntVal(h)
            if h.get_id() in tried:
                continue
            tried.add(h.get_id())
            if any(v.eq(it) for v in free_consts(h)):
                continue
            if hyps is None:
                ok = self.valid([C], it == h)
            else:
                ok = check_sat(hyps + [C, it != h],
                               QUICK_RLIMIT)[0] == 'unsat'
            if ok:
                return h
        return None

    def resolve_obj_list(self, c, normals):
        """list of arrays/tuples: unconditional append, or element store"""
        ip, it = self.ip, self.it
        if c.init.ndim != 1:
            return False
        x = ip.fresh('x', I)
        if len(normals) != 1:
            # merge the paths through conditional element values
            pass
        shp = (c.shape_cf[0] if c.shape_carried[0] else
               (lambda i: c.init.shape[0]))
        # appended / stored element at this iteration
        pos = None
        if c.shape_carried[0]:
            L0 = shp(it)
            ok = all(self.valid(p.pcs, cmp('==', self.end_value(
                c, p).shape[0], add(L0, 1))) for p in normals)
            if not ok or not self.valid([], cmp('==', shp(it), add(
                    c.init.shape[0], it))):
                return False
            pos = L0
            wr = (lambda j: sub(j, c.init.shape[0]))
        else:
            pos = it
            wr = (lambda j: j)
        g = None
        for p in reversed(normals):
            e = self.end_value(c, p).get((pos,))
            if not is_scalar(e):
                sv = ip.heap
                ip.heap = p.heap
                try:
                    if isinstance(e, (Ref, View, ElemRef)):
                        e = ip.arr(e)
                finally:
                    ip.heap = sv
            g = e if g is None else ite(simp(z3.And(
                *[Z(q) for q in p.pcs])) if p.pcs else True, e, g)
        # frame: every store of the body goes to this position
        for p in normals:
            v = self.end_value(c, p)
            w = self.entry_value(c)
            ch, base = store_chain(v)
            if base.get is not w.get:
                return False
            for _, j, _nv in ch:
                if not self.valid(p.pcs, cmp('==', j, pos)):
                    return False
            if not ch:
                return False
        if isinstance(g, ArrVal):
            hs = [ip.fresh('h', I) for _ in g.shape]
            self.holes = {h.decl().name() for h in hs}
            probe = g.get(tuple(hs))
            bad = self.has_local(probe) or any(
                self.has_local(s) for s in g.shape)
            un = self.unresolved()
            bad = bad or self.occurs(probe, un)
            self.holes = ()
            if bad:
                return False
        elif is_scalar(g) and self.has_local(g):
            return False
        gl = ip.lift(g, it)

        def cf(i):
            n = shp(i)

            def get(ix):
                j = ix[0]
                w = wr(j)
                cnd = And(cmp('>=', w, 0), cmp('<', w, i))
                if cnd is True:
                    return gl(w)
                cc = simp(cnd) if is_z3(cnd) else cnd
                if is_z3(cc):
                    if ip.entails(cc):
                        return gl(w)
                    if ip.entails(simp(Not(cc))):
                        return c.init.get(ix)
                n0 = c.init.shape[0]
                if not is_z3(n0) and n0 == 0:
                    return gl(w)
                if cc is False:
                    return c.init.get(ix)
                return ite(cc, gl(w), c.init.get(ix))
            return ArrVal((n,), get, 'obj', True)
        c.cf, c.how = cf, 'list-map'
        return True

    # obj lists at the generic iteration have an unknown prefix; only reads
    # of freshly written positions are supported before resolution
    def entry_value(self, c):
        if c.key[0] == 'name':
            return self.entry_heap[c.tmp_id]
        return self.entry_heap[c.key[1]]

    # -- unresolved items: exact transition relation -------------------------
    def transition_axioms(self, paths):
        ip, it = self.ip, self.it
        un = [c for c in self.cells if c.cf is None]
        if not un:
            return []
        normals = [p for p in paths if p.kind in ('normal', 'continue')]
        out = []
        for c in un:
            if c.kind != 'scalar':
                raise Unsupported('array %s: no closed form' % (c.key,))
            out.append(Z(cmp('==', c.fn(z3.IntVal(0)), c.init)))
        for p in normals:
            for c in un:
                v = self.end_value(c, p)
                if self.has_local(v):
                    raise Unsupported('local symbol in %s' % (c.key,))
        body = []
        for p in normals:
            g = ip.close_pcs(p.pcs, [it])
            if self.has_local(Z(g)):
                raise Unsupported('local symbol in guard')
            for c in un:
                v = self.end_value(c, p)
                body.append(Implies(g, cmp('==', c.fn(it + 1), to_kind(
                    v, c.skind))))
        rng = [it >= 0]
        if self.n is not None:
            rng.append(it < Z(self.n))
        ax = z3.ForAll([it], z3.Implies(z3.And(*rng), Z(And(*body))),
                       patterns=[un[0].fn(it)])
        out.append(ax)
        return out

    def use_user_invariants(self, paths):
        pass

    def invariant_obligations(self, paths, prior):
        "initiation and preservation of the closed forms"
        ip, it = self.ip, self.it
        if not ip.collect or ip.spec_mode:
            return
        normals = [p for p in paths if p.kind in ('normal', 'continue')]
        rng = [it >= 0] + ([it < Z(self.n)] if self.n is not None else [])
        for c in self.cells:
            if c.cf is None or c.how in ('unchanged', 'entry', 'list-map'):
                continue
            nm = 'loop@%s:%d' % (ip.frame.fname, self.line)
            if c.kind == 'scalar':
                ip.obligs.append(Oblig(
                    '%s inv-init %s' % (nm, c.key[1]), list(ip.pc),
                    cmp('==', c.cf(0), c.init), nm, 'inv-init'))
                for q, p in enumerate(normals):
                    ip.obligs.append(Oblig(
                        '%s inv-preserved %s path %d' % (nm, c.key[1], q),
                        list(ip.pc) + rng + list(prior) + list(p.pcs),
                        cmp('==', c.cf(simp(it + 1)), self.end_value(c, p)),
                        nm, 'inv-preserved'))
            else:
                xs = [ip.fresh('ix', I) for _ in c.init.shape]
                for q, p in enumerate(normals):
                    v = self.end_value(c, p)
                    w = c.cf(simp(it + 1))
                    hy = [And(cmp('>=', x, 0), cmp('<', x, s))
                          for x, s in zip(xs, v.shape)]
                    hy = [h for h in hy if h is not True]
                    for d in range(v.ndim):
                        g = cmp('==', w.shape[d], v.shape[d])
                        if g is not True:
                            ip.obligs.append(Oblig(
                                '%s inv-preserved %s shape path %d' % (
                                    nm, c.key[1], q),
                                list(ip.pc) + rng + list(prior) +
                                list(p.pcs), g, nm, 'inv-preserved'))
                    ip.obligs.append(Oblig(
                        '%s inv-preserved %s path %d' % (nm, c.key[1], q),
                        list(ip.pc) + rng + list(prior) + list(p.pcs) + hy,
                        cmp('==', w.get(tuple(xs)), v.get(tuple(xs))),
                        nm, 'inv-preserved'))

    # -- after the loop ------------------------------------------------------
    def finish(self, paths, E_it, mark, outer_mark):
        ip, it, N = self.ip, self.it, self.n
        frame = ip.frame
        ip.local_mark = outer_mark
        normals = [p for p in paths if p.kind in ('normal', 'continue')]
        exits = [p for p in paths if p.kind not in ('normal', 'continue')]
        jj = ip.fresh('pj', I)
        ip.local_mark = mark

        def no_exit_before(b):
            if E_it is False:
                return True
            e = z3.substitute(Z(E_it), (it, jj))
            return ip.forall_term(jj, z3.Implies(
                z3.And(jj >= 0, jj < Z(b)), z3.Not(e)))
        simple = self.simple_exits(exits)
        try:
            pieces = []
            # complete execution (for loops)
            if N is not None:
                pieces.append(('complete', None))
            if simple and exits:
                pieces.append(('some', exits))
            else:
                for p in exits:
                    pieces.append(('exit', p))
            if not pieces:
                raise PathEnd()      # while True without exit
        finally:
            ip.local_mark = outer_mark
        if ip.nofork and len(pieces) > 1:
            raise NeedFork()
        choice = self.choose(len(pieces))
        tag, p = pieces[choice]
        if tag == 'complete':
            ip.assume(no_exit_before(N))
            cnt = self.sel_nonneg(N)
            self.set_state(cnt, normals, None)
            ip.block(self.node.orelse)
            return
        if tag == 'some':
            # all exits have the same constant outcome
            E = Z(E_it)
            k = ip.fresh('ke', I)
            rng = z3.And(k >= 0, k < Z(N)) if N is not None else (k >= 0)
            ip.assume(z3.And(rng, z3.substitute(E, (it, k))))
            q = p[0]
            self.restore_outer(k)
            if q.kind == 'return':
                raise ReturnSig(q.value)
            raise q.value
        k = ip.fresh('ke', I)
        rng = [k >= 0] + ([k < Z(N)] if N is not None else [])
        if p.kind == 'done':
            # the number of iterations of a while loop, when it is determined
            last = z3.Implies(k >= 1, z3.Not(z3.substitute(
                Z(E_it), (it, k - 1))))
            C = And(*(rng + [last] + [
                self.inst_it(f, k) for f in p.pcs]))
            h = self.find_writer(C, [], k, ip.qf_pc()) if is_z3(C) else None
            if h is not None:
                k = h
                rng = [k >= 0] + ([k < Z(N)] if N is not None else [])
        ip.assume(And(*rng))
        ip.assume(no_exit_before(k))
        # instantiate the path at iteration k with its own local symbols
        for f in p.pcs:
            ip.assume(self.inst_it(f, k))
        if tag == 'exit' and p.kind == 'done':
            self.set_state(k, normals, None)
            ip.block(self.node.orelse)
            return
        self.set_state(k, normals, p)
        if p.kind == 'break':
            return
        if p.kind == 'return':
            v = p.value
            raise ReturnSig(self.inst_value(v, k, p))
        raise p.value

    def inst_it(self, t, k):
        if not is_z3(t):
            return t
        return z3.substitute(t, (self.it, Z(k)))

    def inst_value(self, v, k, p):
        ip = self.ip
        if is_scalar(v):
            return simp(self.inst_it(v, k)) if is_z3(v) else v
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, tuple):
            return tuple(self.inst_value(x, k, p) for x in v)
        if isinstance(v, Ref):
            if v.id in self.heap0 or v.id in ip.heap:
                return v
            c = p.heap[v.id]
            if isinstance(c, ArrVal):
                return ip.alloc(ip.lift_arr(c, self.it)(k))
            if isinstance(c, ListVal):
                return ip.alloc(ListVal([self.inst_value(x, k, p)
                                         for x in c.items]))
        if isinstance(v, (View, ElemRef)):
            sv = ip.heap
            ip.heap = p.heap
            try:
                a = ip.arr(v)
            finally:
                ip.heap = sv
            return ip.alloc(ip.lift_arr(a, self.it)(k))
        if isinstance(v, (RangeVal, FuncVal, Builtin)):
            raise Unsupported('loop exit value')
        if isinstance(v, ArrVal):
            return ip.lift_arr(v, self.it)(k)
        raise Unsupported('loop exit value %r' % (type(v),))

    def restore_outer(self, k):
        for c in self.cells:
            if c.cf is not None:
                pass

    def simple_exits(self, exits):
        "all exits end the function with one constant outcome"
        if not exits:
            return False
        for c in self.cells:
            if c.key[0] == 'cell':
                # state written before leaving could be observed
                return False
        f = exits[0]
        for p in exits:
            if p.kind != f.kind:
                return False
            if p.kind == 'return':
                v = p.value
                if is_z3(v) or isinstance(v, (Ref, View, ElemRef, ArrVal,
                                              tuple)):
                    return False
                if v != f.value or type(v) != type(f.value):
                    return False
            elif p.kind == 'raise':
                if p.value.name != f.value.name:
                    return False
            else:
                return False
            for i, v in self.heap0.items():
                if p.heap.get(i) is not self.entry_heap.get(i):
                    return False
        return True

    def choose(self, n):
        "fork over n alternatives"
        ip = self.ip
        for k in range(n - 1):
            if ip.pos < len(ip.dec):
                d = ip.dec[ip.pos]
                ip.pos += 1
            else:
                ip.work.append(ip.dec[:ip.pos] + [(False, True)])
                d = (True, True)
                ip.dec = ip.dec[:ip.pos] + [d]
                ip.pos += 1
            if d[0]:
                return k
        return n - 1

    def sel_nonneg(self, N):
        ip = self.ip
        return ip.sel(cmp('>=', N, 0), N, 0)

    def set_state(self, k, normals, p):
        """state after k complete iterations (p None) or at exit path p of
        iteration k"""
        ip = self.ip
        env = dict(self.env0)
        if p is None:
            for c in self.cells:
                v = self.value_at(c, k)
                if c.key[0] == 'name':
                    env[c.key[1]] = ip.alloc(v) if c.kind == 'array' else v
                else:
                    ip.heap[c.key[1]] = self.unfocus(c, v)
            have = {c.key[1] for c in self.cells if c.key[0] == 'name'}
            for b in self.bound:
                if b in have:
                    continue
                env[b] = self.last_value(b, k, normals)
            # array names that were not rebound keep their reference
            ip.frame.env = env
            return
        for i, v in p.heap.items():
            if i in self.heap0:
                if p.heap[i] is not self.entry_heap.get(i):
                    if isinstance(v, ArrVal):
                        fc = [c for c in self.cells
                              if c.key == ('cell', i) and c.focus]
                        if fc:
                            ip.heap[i] = self.unfocus(
                                fc[0], self.lift_cell(
                                    self.end_value(fc[0], p), k))
                            continue
                        ip.heap[i] = self.lift_cell(v, k)
                    elif isinstance(v, ListVal):
                        ip.heap[i] = ListVal([self.inst_value(x, k, p)
                                              for x in v.items])
                    elif isinstance(v, ObjVal):
                        ip.heap[i] = ObjVal(v.cls, {
                            q: x if x is self.heap0[i].attrs.get(q) else
                            self.inst_value(x, k, p)
                            for q, x in v.attrs.items()})
                    else:
                        raise Unsupported('exit mutates object')
                else:
                    for c in self.cells:
                        if c.key == ('cell', i):
                            ip.heap[i] = self.unfocus(
                                c, self.value_at(c, k))
        carried = {c.key[1]: c for c in self.cells if c.key[0] == 'name'}
        rebound = [x for x in getattr(self, 'rebind_try', ())
                   if p.env.get(x) is not self.entry_env.get(x)]
        names = list(self.bound)
        names += [x for x in list(carried) + rebound if x not in names]
        for b in names:
            if b in p.env and not isinstance(p.env[b], Poison):
                try:
                    env[b] = self.inst_value(p.env[b], k, p)
                except Unsupported:
                    env[b] = Poison(b)
            else:
                env[b] = self.last_value(b, k, normals)
        ip.frame.env = env

    def lift_cell(self, v, k):
        return self.ip.lift_arr(v, self.it)(k)

    def last_value(self, b, k, normals):
        "value of a non-carried name after k complete iterations"
        ip = self.ip
        init = self.env0.get(b)
        if isinstance(init, (Poison,)):
            init = None
        if not is_z3(k) and k == 0:
            return self.env0.get(b, Poison(b))
        vals = []
        for p in normals:
            v = p.env.get(b)
            if v is None or isinstance(v, (Poison, MaybeUndef)) or \
                    not is_scalar(v) or self.has_local(v) or any(
                        self.has_local(Z(q)) for q in p.pcs):
                return Poison(b)
            vals.append((p.pcs, v))
        if not vals:
            return self.env0.get(b, Poison(b))
        try:
            s = self.merge_vals(vals)
        except Unsupported:
            return Poison(b)
        prev = self.subst_it(s, sub(k, 1))
        if b in self.env0 and is_scalar(init):
            return ite(cmp('==', k, 0), init, prev)
        return MaybeUndef(prev, cmp('>', k, 0), b)


class _ExitNormal(Exception):
    pass

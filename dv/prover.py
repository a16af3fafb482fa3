"""Discharging of verification conditions (z3 back end, cvc5 as second opinion)
and the theory of finite sums used for counts, sums and accumulating loops."""
import time
import itertools
from fractions import Fraction
import z3
z3.z3.Z3_DEBUG = False
from .values import (I, R, B, is_z3, Z, simp, And, Or, Not, Implies, num, mul,
                     maxv, sub, add, to_kind, kind_of)

STATS = {'queries': 0, 'time': 0.0, 'backends': {}}

QUICK_RLIMIT = 400000
FULL_RLIMIT = 12000000


_FC, _HQ = {}, {}


def free_consts(t, cache=None):
    "0-ary uninterpreted constants of a term, in order of first occurrence"
    i = t.get_id()
    r = _FC.get(i)
    if r is None:
        # the term is kept alive: its id stays its own
        r = _FC[i] = (t, _free_consts(t))
    return list(r[1])


def _free_consts(t):
    seen, out, stack = set(), [], [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(e)
            else:
                stack.extend(reversed(e.children()))
    return out


def fun_decls(t):
    "names of uninterpreted function symbols of arity > 0"
    seen, out, stack = set(), set(), [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.num_args() > 0 and \
                    e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            stack.extend(e.children())
    return out


def has_quant(t):
    i = t.get_id()
    r = _HQ.get(i)
    if r is None:
        r = _HQ[i] = (t, _has_quant(t))
    return r[1]


def _has_quant(t):
    seen, stack = set(), [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        stack.extend(e.children())
    return False


class SumDef:
    __slots__ = ('decl', 'params', 'bound', 'body', 'name')


class Sums:
    """registry of summation symbols  S(params, lo, hi) = sum of body over
    lo <= bound < hi; two sums with the same canonical body share a symbol"""

    def __init__(self):
        self.by_key = {}
        self.by_name = {}

    def make(self, bound, body, lo, hi):
        lo, hi = num(lo), num(hi)
        body = num(body)
        if not is_z3(body):
            if body == 0:
                return body
            cnt = maxv(0, sub(hi, lo))
            return mul(body, cnt)
        body = z3.simplify(body)
        if not any(c.eq(bound) for c in free_consts(body)):
            return mul(body, maxv(0, sub(hi, lo)))
        if not is_z3(lo) and not is_z3(hi) and hi - lo <= 12:
            r = 0 if body.sort() == I else to_kind(0, 'real')
            for k in range(lo, hi):
                r = add(r, z3.substitute(body, (bound, z3.IntVal(k))))
            return r
        one = self.one_point(bound, body, lo, hi)
        if one is not None:
            return one
        params = [c for c in free_consts(body) if not c.eq(bound)]
        subs = [(p, z3.Const('$p%d_%s' % (k, p.sort().name()), p.sort()))
                for k, p in enumerate(params)]
        bv = z3.Int('$bv')
        canon = z3.substitute(body, *(subs + [(bound, bv)]))
        key = canon.sexpr()
        d = self.by_key.get(key)
        if d is None:
            d = SumDef()
            d.name = 'SUM%d' % len(self.by_key)
            d.decl = z3.Function(
                d.name, *([p.sort() for p in params] + [I, I, body.sort()]))
            d.params = [s[1] for s in subs]
            d.bound = bv
            d.body = canon
            self.by_key[key] = d
            self.by_name[d.name] = d
        return d.decl(*(params + [Z(lo), Z(hi)]))

    def one_point(self, bound, body, lo, hi):
        "sum of a term that is zero except at one index"
        if not (z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE):
            return None
        c, v, w = body.children()
        zero = z3.IntVal(0) if body.sort() == I else z3.RealVal(0)
        if not z3.simplify(w).eq(zero):
            return None
        for q in (c.children() if z3.is_and(c) else [c]):
            if not z3.is_eq(q) or q.arg(0).sort() != I:
                continue
            for a, b in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                if a.eq(bound) and not any(x.eq(bound)
                                           for x in free_consts(b)):
                    at = z3.substitute(c, (bound, b))
                    return z3.simplify(z3.If(
                        z3.And(Z(lo) <= b, b < Z(hi), at),
                        z3.substitute(v, (bound, b)), zero))
        return None

    def apps(self, terms):
        "ground summation applications occurring in the terms"
        seen, out, stack = set(), {}, list(terms)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                stack.append(e.body())
                continue
            if z3.is_app(e):
                if e.num_args() and e.decl().name() in self.by_name:
                    if not _has_var(e):
                        out[e.get_id()] = e
                stack.extend(e.children())
        return list(out.values())

    def body_at(self, app, t):
        d = self.by_name[app.decl().name()]
        args = app.children()
        subs = list(zip(d.params, args[:-2])) + [(d.bound, Z(t))]
        return z3.simplify(z3.substitute(d.body, *subs))

    def is_app(self, e):
        return z3.is_app(e) and e.num_args() > 0 and \
            e.decl().name() in self.by_name

    def with_bounds(self, app, lo, hi):
        args = app.children()
        return app.decl()(*(args[:-2] + [Z(lo), Z(hi)]))


def _has_var(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


SUMS = Sums()


def check_sat(assertions, rlimit=FULL_RLIMIT, seed=0, want_model=False,
              ematch=None):
    s = z3.Solver()
    s.set('rlimit', rlimit)
    s.set('timeout', 40000)
    if ematch is None:
        ematch = rlimit <= QUICK_RLIMIT
    if ematch and any(is_z3(a) and has_quant(a) for a in assertions):
        # pruning query: instantiate by patterns only
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
    if seed:
        s.set('random_seed', seed)
    for a in assertions:
        if a is True:
            continue
        if a is False:
            return ('unsat', None)
        s.add(a)
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    m = None
    if want_model and r != z3.unsat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return (str(r), m)


def cvc5_unsat(assertions, tlimit_ms=10000):
    "second back end: cvc5 through SMT-LIB text"
    import subprocess
    s = z3.Solver()
    for a in assertions:
        if a is True:
            continue
        if a is False:
            return True
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % tlimit_ms,
                            '-'], input=txt, capture_output=True, text=True,
                           timeout=tlimit_ms / 1000 + 20)
    except Exception:
        return False
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    return p.stdout.strip().startswith('unsat')


_ctr = itertools.count()


def fresh_int(name='t'):
    return z3.Int('%s!%d' % (name, next(_ctr)))


def strip_goal(goal):
    """skolemise: returns a list of (extra hypotheses, goal) pairs"""
    out = []

    def go(h, g, depth):
        if g is True:
            return
        if g is False:
            out.append((h, z3.BoolVal(False)))
            return
        if depth > 40:
            out.append((h, g))
            return
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const('%s!sk%d' % (g.var_name(k), next(_ctr)),
                           g.var_sort(k)) for k in range(g.num_vars())]
            go(h, z3.substitute_vars(g.body(), *reversed(vs)), depth + 1)
            return
        if z3.is_and(g):
            for c in g.children():
                go(h, c, depth + 1)
            return
        if z3.is_implies(g):
            go(h + [g.arg(0)], g.arg(1), depth + 1)
            return
        if z3.is_or(g):
            ch = g.children()
            # turn all but one quantified disjunct into hypotheses
            qs = [c for c in ch if z3.is_quantifier(c) and c.is_forall()]
            if qs:
                q = qs[0]
                rest = [z3.Not(c) for c in ch if not c.eq(q)]
                go(h + rest, q, depth + 1)
                return
            # keep the (in)equality of summations, assume the rest
            sm = [c for c in ch if not z3.is_not(c) and SUMS.apps([c])] or \
                [c for c in ch if SUMS.apps([c])]
            if sm and len(ch) > 1:
                rest = [z3.Not(c) for c in ch if not c.eq(sm[0])]
                go(h + rest, sm[0], depth + 1)
                return
            ands = [c for c in ch if z3.is_and(c) and (
                has_quant(c) or real_terms(c) != (False, []))]
            if ands:
                rest = [z3.Not(c) for c in ch if not c.eq(ands[0])]
                go(h + rest, ands[0], depth + 1)
                return
        if z3.is_not(g):
            x = g.arg(0)
            if z3.is_quantifier(x) and not x.is_forall():
                vs = [z3.Const('%s!sk%d' % (x.var_name(k), next(_ctr)),
                               x.var_sort(k)) for k in range(x.num_vars())]
                go(h, z3.Not(z3.substitute_vars(x.body(), *reversed(vs))),
                   depth + 1)
                return
            if z3.is_or(x):
                for c in x.children():
                    go(h, z3.Not(c), depth + 1)
                return
            if z3.is_and(x):
                # not(a & b): prove b false assuming a
                ch = x.children()
                go(h + ch[:-1], z3.Not(ch[-1]), depth + 1)
                return
            if z3.is_not(x):
                go(h, x.arg(0), depth + 1)
                return
        if z3.is_eq(g) and g.arg(0).sort() == B and (
                has_quant(g.arg(0)) or has_quant(g.arg(1))):
            go(h + [g.arg(0)], g.arg(1), depth + 1)
            go(h + [g.arg(1)], g.arg(0), depth + 1)
            return
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = g.children()
            go(h + [c], a, depth + 1)
            go(h + [z3.Not(c)], b, depth + 1)
            return
        out.append((h, g))
    go([], goal, 0)
    return out


# ------------------------------------------- increasing enumerations (filters)
SELS = {}           # function name -> definition
_SELKEY = {}


class SelDef:
    """fn(params, 0), fn(params, 1), ...: the k with c(params, k) in
    increasing order; `ns`: bounds below which it was asked for"""
    def __init__(self, fn, params, k, c):
        self.fn, self.params, self.k, self.c = fn, params, k, c
        self.ns = []
        self.one = z3.If(c, z3.IntVal(1), z3.IntVal(0))

    def at(self, e, sub):
        return z3.substitute(self.c, *(sub + [(self.k, e)]))

    def rank(self, e, sub):
        one = z3.substitute(self.one, *sub) if sub else self.one
        return Z(SUMS.make(self.k, one, 0, e))

    def facts(self, args):
        """defining properties for given parameters"""
        sub = list(zip(self.params, args))
        j, t = z3.Int('$fj'), z3.Int('$ft')

        def sel(e):
            return self.fn(*(list(args) + [e]))
        out = []
        for n in self.ns:
            n = z3.substitute(n, *sub) if sub else n
            cnt = self.rank(n, sub)
            out += [
                z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < cnt),
                    z3.And(0 <= sel(j), sel(j) < n, self.at(sel(j), sub),
                           self.rank(sel(j), sub) == j)),
                    patterns=[sel(j)]),
                z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < n, self.at(j, sub)),
                    z3.And(self.rank(j, sub) >= 0, self.rank(j, sub) < cnt,
                           sel(self.rank(j, sub)) == j)),
                    patterns=[self.rank(j, sub)] if SUMS.is_app(
                        self.rank(j, sub)) else []),
                z3.ForAll([j, t], z3.Implies(
                    z3.And(0 <= j, j < t, t < cnt), sel(j) < sel(t)),
                    patterns=[z3.MultiPattern(sel(j), sel(t))]),
                cnt >= 0, cnt <= z3.If(n >= 0, n, 0)]
        return out


def sel_symbol(c, params, k, n):
    key = c.sexpr()
    fn = _SELKEY.get(key)
    if fn is None:
        fn = z3.Function('SEL%d' % len(_SELKEY), *(
            [p.sort() for p in params] + [I, I]))
        _SELKEY[key] = fn
        SELS[fn.name()] = SelDef(fn, params, k, c)
    d = SELS[fn.name()]
    if not any(n.eq(x) for x in d.ns):
        d.ns.append(n)
    return fn


def sel_apps(terms):
    out, seen, stack = [], set(), [t for t in terms if is_z3(t)]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().name() in SELS and e.num_args():
                out.append(e)
            stack.extend(e.children())
    return out


def sel_facts(terms):
    "defining properties of the enumerations that occur in the terms"
    out, done = [], set()
    for a in sel_apps(terms):
        d = SELS[a.decl().name()]
        args = a.children()[:-1]
        if any(_has_var(x) for x in args):
            args = list(d.params)
            key = (a.decl().name(), 'all')
            if key in done:
                continue
            done.add(key)
            out += [z3.ForAll(args, f) if args else f
                    for f in d.facts(args)]
            continue
        key = (a.decl().name(),) + tuple(x.get_id() for x in args)
        if key in done:
            continue
        done.add(key)
        out += d.facts(args)
    return out


def skolem_hyps(hyps):
    "flatten conjunctions and skolemise existential hypotheses"
    out = []
    for h in hyps:
        _sk(h, out)
    return out


def _sk(h, out):
    if h is True:
        return
    if z3.is_and(h):
        for c in h.children():
            _sk(c, out)
        return
    if z3.is_quantifier(h) and h.is_exists():
        vs = [z3.Const('%s!sk%d' % (h.var_name(k), next(_ctr)),
                       h.var_sort(k)) for k in range(h.num_vars())]
        _sk(z3.substitute_vars(h.body(), *reversed(vs)), out)
        return
    if z3.is_not(h):
        x = h.arg(0)
        if z3.is_quantifier(x) and x.is_forall():
            vs = [z3.Const('%s!sk%d' % (x.var_name(k), next(_ctr)),
                           x.var_sort(k)) for k in range(x.num_vars())]
            _sk(z3.Not(z3.substitute_vars(x.body(), *reversed(vs))), out)
            return
        if z3.is_or(x):
            for c in x.children():
                _sk(z3.Not(c), out)
            return
        if z3.is_implies(x):
            _sk(x.arg(0), out)
            _sk(z3.Not(x.arg(1)), out)
            return
        if z3.is_not(x):
            _sk(x.arg(0), out)
            return
    out.append(h)


def sum_facts(hyps, goal, level=1, ext=True):
    "lemma instances for the summation terms of a query"
    terms = [Z(h) for h in hyps] + [Z(goal)]
    facts = []
    apps = []
    for a in SUMS.apps(terms):
        lo, hi = a.children()[-2:]
        d = SUMS.by_name[a.decl().name()]
        t = fresh_int('sc')
        v = piecewise(t, SUMS.body_at(a, t), lo, hi)
        if v is not None:
            facts.append(a == v)
        else:
            apps.append(a)
    frontier = apps
    known = {a.get_id() for a in apps}
    allapps = list(apps)
    for _ in range(level):
        nxt = []
        for a in frontier:
            lo, hi = a.children()[-2:]
            prev = SUMS.with_bounds(a, lo, z3.simplify(hi - 1))
            facts.append(z3.Implies(lo >= hi, a == 0))
            facts.append(z3.Implies(
                lo < hi, a == prev + SUMS.body_at(a, hi - 1)))
            first = SUMS.with_bounds(a, z3.simplify(lo + 1), hi)
            facts.append(z3.Implies(
                lo < hi, a == first + SUMS.body_at(a, lo)))
            for b in (prev, first):
                b = z3.simplify(b)
                if b.get_id() not in known:
                    known.add(b.get_id())
                    nxt.append(b)
        frontier = nxt
    # pointwise sign / bound facts
    base = [Z(h) for h in hyps]
    for a in allapps:
        t = fresh_int('st')
        lo, hi = a.children()[-2:]
        bt = SUMS.body_at(a, t)
        rng = [lo <= t, t < hi]
        if check_sat(base + rng + [bt < 0], QUICK_RLIMIT)[0] == 'unsat':
            facts.append(a >= 0)
            x = z3.Int('$z')
            bx = SUMS.body_at(a, x)
            facts.append((a == 0) == z3.ForAll([x], z3.Implies(
                z3.And(lo <= x, x < hi), bx == 0)))
            if check_sat(base + rng + [bt > 1], QUICK_RLIMIT)[0] == 'unsat':
                facts.append(z3.Implies(lo <= hi, (
                    z3.ToReal(a) if False else a) <= (
                        hi - lo if a.sort() == I else z3.ToReal(hi - lo))))
                if a.sort() == I and check_sat(
                        base + rng + [bt != 0, bt != 1],
                        QUICK_RLIMIT)[0] == 'unsat':
                    facts.append(z3.Implies(
                        lo <= hi, (a == hi - lo) == z3.ForAll(
                            [x], z3.Implies(z3.And(lo <= x, x < hi),
                                            bx == 1))))
    if ext:
        n = len(allapps)
        for p in range(n):
            for q in range(p + 1, n):
                a, b = allapps[p], allapps[q]
                if a.decl().name() == b.decl().name() and all(
                        x.eq(y) for x, y in zip(a.children()[:-2],
                                                b.children()[:-2])):
                    continue    # congruence and splitting apply
                f = ext_lemma(base + facts, a, b)
                if f is not None:
                    facts.append(f)
                elif a.decl().name() != b.decl().name():
                    facts += prefix_lemma(base, a, b)
        # splitting of sums sharing a symbol and a bound
        for p in range(n):
            for q in range(n):
                if p == q:
                    continue
                a, b = allapps[p], allapps[q]
                if a.decl().name() != b.decl().name():
                    continue
                if not all(x.eq(y) for x, y in zip(
                        a.children()[:-2], b.children()[:-2])):
                    continue
                (l1, h1), (l2, h2) = a.children()[-2:], b.children()[-2:]
                if l1.eq(l2):
                    facts.append(z3.Implies(
                        z3.And(l1 <= h2, h2 <= h1),
                        a == b + SUMS.with_bounds(a, h2, h1)))
    return facts


def piecewise(k, body, lo, hi, depth=0):
    """closed form of the sum of a piecewise constant term (pieces delimited
    by comparisons of the index with terms free of it), or None"""
    def free(e):
        return not any(c.eq(k) for c in free_consts(e))
    if depth > 12:
        return None
    if z3.is_int_value(body) or z3.is_rational_value(body):
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return body * (n if body.sort() == I else z3.ToReal(n))
    if not z3.is_app(body):
        return None
    kd = body.decl().kind()
    ch = body.children()
    if kd == z3.Z3_OP_ADD:
        parts = [piecewise(k, c, lo, hi, depth + 1) for c in ch]
        return None if any(p is None for p in parts) else z3.Sum(parts)
    if kd == z3.Z3_OP_MUL and len(ch) == 2 and (
            z3.is_int_value(ch[0]) or z3.is_rational_value(ch[0])):
        p = piecewise(k, ch[1], lo, hi, depth + 1)
        return None if p is None else ch[0] * p
    if kd == z3.Z3_OP_TO_REAL:
        p = piecewise(k, ch[0], lo, hi, depth + 1)
        return None if p is None else z3.ToReal(p)
    if free(body):
        if depth == 0 or body.sort() != I:
            return None
        # the number of items must be known for the product to be linear
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if z3.is_int_value(n):
            return n * body
        m = z3.simplify(hi - lo)
        if z3.is_int_value(m):
            return body * m if m.as_long() > 0 else z3.IntVal(0)
        return None
    if kd != z3.Z3_OP_ITE:
        return None
    c, v, w = ch
    if free(c):
        a = piecewise(k, v, lo, hi, depth + 1)
        b = piecewise(k, w, lo, hi, depth + 1)
        return None if a is None or b is None else z3.If(c, a, b)
    if z3.is_not(c):
        return piecewise(k, z3.If(c.arg(0), w, v), lo, hi, depth + 1)
    if z3.is_and(c):
        r = c.children()[1:]
        r = r[0] if len(r) == 1 else z3.And(*r)
        return piecewise(k, z3.If(c.arg(0), z3.If(r, v, w), w), lo, hi,
                         depth + 1)
    if z3.is_or(c):
        r = c.children()[1:]
        r = r[0] if len(r) == 1 else z3.Or(*r)
        return piecewise(k, z3.If(c.arg(0), v, z3.If(r, v, w)), lo, hi,
                         depth + 1)
    if not z3.is_app(c):
        return None
    op = c.decl().kind()
    if op not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                  z3.Z3_OP_EQ) or c.arg(0).sort() != I:
        return None
    d = c.arg(0) - c.arg(1)
    d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
    a = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - d0)
    if not z3.is_int_value(a) or a.as_long() == 0 or not z3.is_true(
            z3.simplify(d == a * k + d0)):
        return None
    a = a.as_long()
    if a < 0:
        a, d0 = -a, z3.simplify(-d0)
        op = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE,
              z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(op, op)
    # a k + d0 against 0, a > 0
    fl = z3.simplify(-d0 if a == 1 else (-d0) / a)
    ce = z3.simplify(-d0 if a == 1 else -(d0 / a))
    e = ce
    def mx(x, y):
        return z3.If(x > y, x, y)
    def mn(x, y):
        return z3.If(x < y, x, y)
    def low(at):        # v for k < at, w from at on
        x = piecewise(k, v, lo, mn(hi, at), depth + 1)
        y = piecewise(k, w, mx(lo, at), hi, depth + 1)
        return None if x is None or y is None else x + y
    def high(at):       # w for k < at, v from at on
        x = piecewise(k, w, lo, mn(hi, at), depth + 1)
        y = piecewise(k, v, mx(lo, at), hi, depth + 1)
        return None if x is None or y is None else x + y
    if op == z3.Z3_OP_EQ:
        x = piecewise(k, w, lo, mn(hi, e), depth + 1)
        y = piecewise(k, w, mx(lo, z3.simplify(fl + 1)), hi, depth + 1)
        if x is None or y is None:
            return None
        one = z3.substitute(v, (k, e))
        return x + y + z3.If(z3.And(lo <= e, e < hi, ce == fl), one,
                             z3.IntVal(0) if one.sort() == I
                             else z3.RealVal(0))
    if op == z3.Z3_OP_GE:
        return high(ce)
    if op == z3.Z3_OP_GT:
        return high(fl + 1)
    if op == z3.Z3_OP_LE:
        return low(fl + 1)
    return low(ce)


def prefix_lemma(base, a, b):
    """a sum that equals, term by term, the beginning of another one"""
    lo1, hi1 = a.children()[-2:]
    lo2, hi2 = b.children()[-2:]
    if not lo1.eq(lo2) or hi1.eq(hi2):
        return []
    if check_sat(base + [hi1 > hi2], QUICK_RLIMIT)[0] != 'unsat':
        if check_sat(base + [hi2 > hi1], QUICK_RLIMIT)[0] != 'unsat':
            return []
        a, b, hi1, hi2 = b, a, hi2, hi1
    t = fresh_int('sp')
    rng = [lo1 <= t, t < hi1]
    if check_sat(base + rng + [SUMS.body_at(a, t) != SUMS.body_at(b, t)],
                 QUICK_RLIMIT)[0] != 'unsat':
        return []
    p, q = SUMS.with_bounds(b, lo1, hi1), SUMS.with_bounds(b, hi1, hi2)
    q1 = SUMS.with_bounds(b, z3.simplify(hi1 + 1), hi2)
    out = [z3.Implies(lo1 <= hi1, z3.And(a == p, b == p + q)),
           z3.Implies(hi1 < hi2, q == SUMS.body_at(b, hi1) + q1),
           z3.Implies(hi1 >= hi2, q == 0)]
    if check_sat(base + [hi1 <= t, t < hi2, SUMS.body_at(b, t) < 0],
                 QUICK_RLIMIT)[0] == 'unsat':
        out += [q >= 0, z3.Implies(hi1 < hi2, q1 >= 0)]
    return out


def ext_lemma(base, a, b):
    "pointwise equality of two sums over ranges of equal length"
    lo1, hi1 = a.children()[-2:]
    lo2, hi2 = b.children()[-2:]
    # equal once both are continued by zeros
    t = fresh_int('sz')
    b1, b2 = SUMS.body_at(a, lo1 + t), SUMS.body_at(b, lo2 + t)
    z = z3.IntVal(0)
    if check_sat(base + [t >= 0, z3.Or(lo1 + t < hi1, lo2 + t < hi2), z3.If(
            lo1 + t < hi1, b1, z) != z3.If(lo2 + t < hi2, b2, z)],
            QUICK_RLIMIT)[0] == 'unsat':
        return a == b
    same = z3.simplify((hi1 - lo1) - (hi2 - lo2))
    if not (z3.is_int_value(same) and same.as_long() == 0):
        if check_sat(base + [hi1 - lo1 != hi2 - lo2, z3.Or(
                hi1 > lo1, hi2 > lo2)], QUICK_RLIMIT)[0] != 'unsat':
            return None
    t = fresh_int('se')
    rng = [t >= 0, t < hi1 - lo1]
    b1 = SUMS.body_at(a, lo1 + t)
    for rev in (False, True):
        b2 = SUMS.body_at(b, (hi2 - 1 - t) if rev else (lo2 + t))
        if b1.eq(b2) or check_sat(
                base + rng + [b1 != b2], QUICK_RLIMIT)[0] == 'unsat':
            return a == b
    return None


def rewrite_goal(hs, facts, g):
    """goal with summations known to be equal identified and conditionals
    decided by the hypotheses (a sound rewriting: every step is entailed)"""
    sub = []
    for f in facts:
        if z3.is_eq(f) and f.num_args() == 2:
            a, b = f.children()
            if SUMS.is_app(a) and SUMS.is_app(b):
                sub.append((a, b))
            elif SUMS.is_app(a) and z3.is_app(b) and \
                    b.decl().kind() == z3.Z3_OP_TO_REAL:
                sub.append((a, b))
            elif SUMS.is_app(b) and z3.is_app(a) and \
                    a.decl().kind() == z3.Z3_OP_TO_REAL:
                sub.append((b, a))
    for p in sub:
        g = z3.substitute(g, p)
    for _ in range(12):
        c = first_ite(g)
        if c is None:
            break
        if check_sat(hs + [z3.Not(c)], QUICK_RLIMIT)[0] == 'unsat':
            v = True
        elif check_sat(hs + [c], QUICK_RLIMIT)[0] == 'unsat':
            v = False
        else:
            break
        g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))))
    return g


def first_ite(g):
    stack, seen = [g], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE:
            return e.arg(0)
        stack.extend(e.children())
    return None


def real_terms(e):
    "(non-linear real products present, real denominators) of a term"
    stack, seen, prod, den = [e], set(), False, []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
            if not any(d.eq(x.arg(1)) for d in den):
                den.append(x.arg(1))
        elif k == z3.Z3_OP_MUL and x.sort() == z3.RealSort() and sum(
                not z3.is_rational_value(c) for c in x.children()) > 1:
            prod = True
        elif k == z3.Z3_OP_POWER:
            prod = True
        stack.extend(x.children())
    return prod, den


def same_heads(g):
    "pairs of different integer constants of a term (loop and index names)"
    seen, stack, cs = set(), [g], []
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.sort() == z3.IntSort() and not z3.is_int_value(x):
                cs.append(x)
        stack.extend(x.children())
    cs.sort(key=str)
    cs = cs[:5]
    return [(a, b) for i, a in enumerate(cs) for b in cs[i + 1:]]


class Polys:
    """normal forms of real terms: {monomial: coefficient}, a monomial being
    the sorted tuple of its atoms; quotients become products with inv(y)"""

    def __init__(self):
        self.atoms = []         # terms
        self.invs = []          # (polynomial, atom number)
        self.dens = []

    def atom(self, t):
        for k, x in enumerate(self.atoms):
            if x is not None and x.eq(t):
                return k
        self.atoms.append(t)
        return len(self.atoms) - 1

    def of(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = e.as_fraction() if z3.is_rational_value(e) else \
                Fraction(e.as_long())
            return {(): f} if f else {}
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in ch:
                    r = padd(r, self.of(c), 1)
                return r
            if k == z3.Z3_OP_SUB:
                r = self.of(ch[0])
                for c in ch[1:]:
                    r = padd(r, self.of(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                return padd({}, self.of(ch[0]), -1)
            if k == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for c in ch:
                    r = pmul(r, self.of(c))
                return r
            if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and \
                    ch[1].as_fraction().denominator == 1 and \
                    0 <= ch[1].as_fraction() <= 6:
                r = {(): Fraction(1)}
                for _ in range(int(ch[1].as_fraction())):
                    r = pmul(r, self.of(ch[0]))
                return r
            if k == z3.Z3_OP_TO_REAL:
                return self.of(ch[0])
            if k == z3.Z3_OP_DIV:
                y = self.of(ch[1])
                if list(y) == [()]:
                    return pmul(self.of(ch[0]), {(): 1 / y[()]})
                return pmul(self.of(ch[0]), {(self.inv(y, ch[1]),):
                                             Fraction(1)})
        return {(self.atom(e),): Fraction(1)}

    def inv(self, y, term):
        for p, k in self.invs:
            if p == y:
                return k
        self.atoms.append(None)
        self.invs.append((y, len(self.atoms) - 1))
        self.dens.append(term)
        return len(self.atoms) - 1


def padd(a, b, f):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def nl_infeasible(P, known, hs):
    """the signs assumed for the polynomials exclude each other (a query over
    the reals, decided by nlsat; denominators proved positive)"""
    xs = [z3.Real('x%d' % k) for k in range(len(P.atoms))]

    def term(p):
        r = z3.RealVal(0)
        for m, c in (p.items() if isinstance(p, dict) else p):
            t = z3.RealVal(str(c))
            for k in m:
                t = t * xs[k]
            r = r + t
        return r
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', 3000)
    for (y, k), t in zip(P.invs, P.dens):
        s.add(term(y) * xs[k] == 1)
        if check_sat(hs + [t <= 0], QUICK_RLIMIT)[0] == 'unsat':
            s.add(xs[k] > 0)
    for q, signs in known.items():
        t = term(q)
        if signs == {0}:
            s.add(t == 0)
        elif signs == {1}:
            s.add(t > 0)
        elif signs == {-1}:
            s.add(t < 0)
        elif signs == {0, 1}:
            s.add(t >= 0)
        elif signs == {0, -1}:
            s.add(t <= 0)
        elif signs == {1, -1}:
            s.add(t != 0)
    STATS['queries'] += 1
    t0 = time.time()
    r = s.check()
    STATS['time'] += time.time() - t0
    return r == z3.unsat


def poly_proof(hs, g):
    """equality of two non-linear real terms by normal forms: conditionals
    are split, quotients x / y become products x * inv(y) for denominators
    proved different from 0, and the difference must expand to 0"""
    while z3.is_or(g):
        eqs = [c for c in g.children() if z3.is_eq(c) and
               c.arg(0).sort() == z3.RealSort()]
        if not eqs:
            return False
        hs = hs + [z3.Not(c) for c in g.children() if not c.eq(eqs[0])]
        g = eqs[0]
    if not (z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()):
        return False
    prod, den = real_terms(g)
    if not prod and not den:
        return False
    lin = [h for h in hs if real_terms(h) == (False, [])]
    budget = [400]
    P = Polys()
    tried = {}

    def sign(c):
        """(key, signs) of a comparison of non-linear terms: the atom says
        that the polynomial `key` has one of `signs`; key None: signs is the
        truth value"""
        pol = True
        while z3.is_not(c):
            c, pol = c.arg(0), not pol
        k = c.decl().kind()
        signs = {z3.Z3_OP_LE: {-1, 0}, z3.Z3_OP_LT: {-1},
                 z3.Z3_OP_GE: {0, 1}, z3.Z3_OP_GT: {1},
                 z3.Z3_OP_EQ: {0}}.get(k)
        if signs is None or not z3.is_arith(c.arg(0)):
            return None
        p = P.of(c.arg(0) - c.arg(1))
        if not pol:
            signs = {-1, 0, 1} - signs
        if not p or list(p) == [()]:
            v = p.get((), 0)
            return (None, ((v > 0) - (v < 0)) in signs)
        f = p[min(p)]
        if f < 0:
            signs = {-x for x in signs}
        return (tuple(sorted((m, v / f) for m, v in p.items())), signs)

    def go(hs, known, g):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        g = z3.simplify(g)
        for x, y in same_heads(g):
            if (len(hs), x.get_id(), y.get_id()) in tried and \
                    tried[len(hs), x.get_id(), y.get_id()][0] is hs:
                continue
            tried[len(hs), x.get_id(), y.get_id()] = (hs, x, y)
            if check_sat(hs + [z3.Not(x == y)], QUICK_RLIMIT)[0] == 'unsat':
                return go(hs, known, z3.substitute(g, (x, y)))
        c = first_ite(g)
        while c is not None:
            d = first_ite(c)
            if d is None:
                if z3.is_and(c) or z3.is_or(c):
                    d = c.arg(0)
                elif z3.is_not(c):
                    d = c.arg(0)
            if d is None:
                break
            c = d
        if c is not None:
            for k, v in ((c, True), (z3.simplify(z3.Not(c)), False)):
                if real_terms(k) != (False, []):
                    h2, k2 = hs, known
                    s = sign(c)
                    if s is not None:
                        q, signs = s
                        if not v:
                            signs = {-1, 0, 1} - signs if q else not signs
                        if q is None:
                            if not signs:
                                continue
                        else:
                            signs = known.get(q, {-1, 0, 1}) & signs
                            if not signs:
                                continue
                            k2 = dict(known)
                            k2[q] = signs
                else:
                    h2, k2 = skolem_hyps(hs + [k]), known
                    if check_sat(h2, QUICK_RLIMIT)[0] == 'unsat':
                        continue
                if not go(h2, k2, z3.substitute(g, (c, z3.BoolVal(v)))):
                    return False
            return True
        if P.of(g):
            return bool(known) and nl_infeasible(P, known, hs)
        return all(check_sat(hs + [y == 0], QUICK_RLIMIT)[0] == 'unsat'
                   for y in P.dens)
    return go(lin, {}, g.arg(0) - g.arg(1))


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'detail')

    def __init__(self, status, backend, t, model=None, detail=''):
        self.status, self.backend, self.time = status, backend, t
        self.model, self.detail = model, detail


def discharge(hyps, goal, rlimit=FULL_RLIMIT, use_cvc5=True):
    """prove hyps |- goal.  status: proved / refuted (counter-model of the
    complete query) / unknown"""
    t0 = time.time()
    if goal is True:
        return Result('proved', 'syntactic', 0.0)
    hyps = [h for h in hyps if h is not True]
    if any(h is False for h in hyps):
        return Result('proved', 'syntactic', 0.0)
    hyps = skolem_hyps([Z(h) for h in hyps])
    backends = set()
    worst = None
    for extra, g in strip_goal(Z(goal)):
        hs = skolem_hyps(hyps + extra)
        hs = hs + sel_facts(hs + [g])
        r = _discharge1(hs, g, rlimit, use_cvc5)
        if r.status != 'proved':
            r.time = time.time() - t0
            if r.status == 'refuted':
                return r
            worst = r
            break
        backends.add(r.backend)
    if worst is not None:
        return worst
    return Result('proved', '+'.join(sorted(backends)) or 'syntactic',
                  time.time() - t0)


def unsat_any(hs, rlimit):
    """(status, model) of a query; pattern instantiation first, then the
    default strategy"""
    st, _ = check_sat(hs, min(rlimit, 2000000), ematch=True)
    if st == 'unsat':
        return st, None
    st, m = check_sat(hs, rlimit, want_model=True)
    return st, m


def sum_ite(g):
    """condition of a conditional of the goal with summations in its
    branches only, or None"""
    stack, seen = [g], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE and SUMS.apps(
                [e.arg(1), e.arg(2)]) and not SUMS.apps([e.arg(0)]) \
                and not has_quant(e.arg(0)):
            return e.arg(0)
        stack.extend(e.children())
    return None


def _discharge1(hs, g, rlimit, use_cvc5, depth=0):
    ng = z3.simplify(z3.Not(g))
    if z3.is_false(ng):
        return Result('proved', 'syntactic', 0.0)
    if poly_proof(hs, g):
        return Result('proved', 'normal form', 0.0)
    apps = SUMS.apps(hs + [ng])
    st, m = check_sat(hs + [ng], min(rlimit, 200000 if apps else 1500000),
                      want_model=True)
    if st == 'unsat':
        return Result('proved', 'z3', 0.0)
    if apps and depth < 4:
        c = sum_ite(g)
        if c is not None:
            worst = None
            for k, v in ((c, True), (z3.simplify(z3.Not(c)), False)):
                h2 = skolem_hyps(hs + [k])
                if check_sat(h2, QUICK_RLIMIT)[0] == 'unsat':
                    continue
                g2 = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))))
                r = _discharge1(h2, g2, rlimit, use_cvc5, depth + 1)
                if r.status != 'proved':
                    worst = r
                    break
            return worst or Result('proved', 'z3+sum-lemmas', 0.0)
    if apps:
        facts = sum_facts(hs, ng, level=1)
        g2 = z3.simplify(rewrite_goal(hs, facts, g))
        if z3.is_true(g2):
            return Result('proved', 'z3+sum-lemmas', 0.0)
        st, m = unsat_any(hs + facts + [ng], rlimit)
        if st == 'unsat':
            return Result('proved', 'z3+sum-lemmas', 0.0)
        facts = facts + sum_facts(hs + facts, ng, level=2)
        st, m = unsat_any(hs + facts + [ng], rlimit)
        if st == 'unsat':
            return Result('proved', 'z3+sum-lemmas', 0.0)
        if use_cvc5 and cvc5_unsat(hs + facts + [ng]):
            return Result('proved', 'cvc5+sum-lemmas', 0.0)
        return Result('unknown', 'z3', 0.0, m,
                      'query with summation lemmas: %s' % st)
    if st == 'sat':
        return Result('refuted', 'z3', 0.0, m, 'counter-model')
    st, m2 = unsat_any(hs + [ng], rlimit)
    if st == 'unsat':
        return Result('proved', 'z3', 0.0)
    if st == 'sat':
        return Result('refuted', 'z3', 0.0, m2, 'counter-model')
    if use_cvc5 and cvc5_unsat(hs + [ng]):
        return Result('proved', 'cvc5', 0.0)
    return Result('unknown', 'z3', 0.0, m2 or m, 'z3 and cvc5: unknown')

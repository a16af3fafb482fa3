"""Contract objects: symbolic parameters, concrete samplers, proof of one
function against its contract, runtime checking of the same contract on the
real function."""
import copy
import numpy as np
import importlib
import inspect
import itertools
import os
import random
import signal
import sys
import time
import types
import z3
from fractions import Fraction
from .values import *
from . import prover
from .interp import Oblig
from .exec import Exec, Frame
from .repo import Repo
from . import npmodel


class Ctx:
    "shared dimensions of one call"
    def __init__(self, ip=None, rng=None, size=6):
        self.ip, self.rng, self.size = ip, rng, size
        self.dims = {}
        self.vals = {}

    def dim(self, n, lo=0):
        if isinstance(n, int):
            return n
        if n in self.dims:
            return self.dims[n]
        if self.ip is not None:
            d = z3.Int('dim_' + n)
            self.ip.assume(d >= lo)
        else:
            hi = max(lo, self.size)
            d = self.rng.randint(lo, hi)
        self.dims[n] = d
        return d


class Sym:
    def sym(self, cx, name):
        raise NotImplementedError

    def sample(self, cx):
        raise NotImplementedError

    def conc(self, v, ev, ip):
        "symbolic value -> python value in a model"
        raise NotImplementedError


def py_num(x):
    if isinstance(x, Fraction):
        return float(x)
    return x


class Int(Sym):
    def __init__(self, lo=None, hi=None, shi=None, name=None, pool=None):
        self.lo, self.hi, self.name = lo, hi, name
        self.shi = shi if shi is not None else hi
        self.pool = pool

    def sym(self, cx, name):
        v = z3.Int('p_' + name)
        if self.lo is not None:
            cx.ip.assume(v >= self.lo)
        if self.hi is not None:
            cx.ip.assume(v <= self.hi)
        return v

    def sample(self, cx):
        if self.pool and cx.rng.random() < .8:
            return cx.rng.choice(self.pool)
        lo = self.lo if self.lo is not None else -10
        hi = self.shi if self.shi is not None else lo + 20
        return cx.rng.randint(lo, max(lo, hi))

    def conc(self, v, ev, ip):
        return ev(v)


class Dim(Sym):
    "integer parameter that equals a shared dimension"
    def __init__(self, n, lo=0):
        self.n, self.lo = n, lo

    def sym(self, cx, name):
        return cx.dim(self.n, self.lo)

    def sample(self, cx):
        return cx.dim(self.n, self.lo)

    def conc(self, v, ev, ip):
        return ev(v) if is_z3(v) else v


class Real(Sym):
    def __init__(self, lo=None, hi=None, pool=None):
        self.lo, self.hi, self.pool = lo, hi, pool

    def sym(self, cx, name):
        v = z3.Real('p_' + name)
        if self.lo is not None:
            cx.ip.assume(v >= z3.RealVal(Fraction(repr(float(self.lo)))))
        if self.hi is not None:
            cx.ip.assume(v <= z3.RealVal(Fraction(repr(float(self.hi)))))
        return v

    def sample(self, cx):
        if self.pool and cx.rng.random() < .7:
            return cx.rng.choice(self.pool)
        lo = self.lo if self.lo is not None else -10
        hi = self.hi if self.hi is not None else 10
        return cx.rng.uniform(lo, hi)

    def conc(self, v, ev, ip):
        return float(ev(v))


class Bool(Sym):
    def sym(self, cx, name):
        # concrete case split: keeps identity tests (is True) meaningful
        return cx.ip.choose_n(2) == 0

    def sample(self, cx):
        return cx.rng.random() < .5

    def conc(self, v, ev, ip):
        return bool(v)


class SBool(Bool):
    "symbolic boolean (no case split up front)"
    def sym(self, cx, name):
        return z3.Bool('p_' + name)

    def conc(self, v, ev, ip):
        return bool(ev(v))


class Const(Sym):
    def __init__(self, v):
        self.v = v

    def sym(self, cx, name):
        return lift_const(cx.ip, self.v)

    def sample(self, cx):
        return copy.deepcopy(self.v)

    def conc(self, v, ev, ip):
        return copy.deepcopy(self.v)


def lift_const(ip, v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.ndim == 1:
            a = const_array([norm_const(x) for x in v.tolist()],
                            {'i': 'int', 'f': 'real', 'b': 'bool'}[
                                v.dtype.kind])
            if a.kind == 'real':
                a = npmodel.plain(a, 'real')
            return ip.alloc(a)
        rows = [ip.arr(lift_const(ip, r)) for r in v]
        return ip.alloc(npmodel.plain(npmodel.deep_arr(
            ip, ip.alloc(ListVal([ip.alloc(r) for r in rows])))))
    if isinstance(v, list):
        return ip.alloc(ListVal([lift_const(ip, x) for x in v]))
    if isinstance(v, tuple):
        return tuple(lift_const(ip, x) for x in v)
    if isinstance(v, dict):
        return ip.alloc(DictVal({k: lift_const(ip, x)
                                 for k, x in v.items()}))
    return norm_const(v)


class OneOf(Sym):
    "finite case split over parameter forms"
    def __init__(self, *alts):
        self.alts = [a if isinstance(a, Sym) else Const(a) for a in alts]

    def sym(self, cx, name):
        k = cx.ip.choose_n(len(self.alts))
        v = self.alts[k].sym(cx, name)
        cx.vals[id(self), name] = k
        return v

    def sample(self, cx):
        return cx.rng.choice(self.alts).sample(cx)

    def conc(self, v, ev, ip):
        for a in self.alts:
            if isinstance(a, Const):
                continue
        return None


class Arr(Sym):
    """1-D numpy array (or python list) of symbolic length"""
    def __init__(self, kind='int', n='n', nmin=0, lo=None, hi=None,
                 is_list=False, pool=None, nmax=None, inc=False,
                 sampler=None):
        self.kind, self.n, self.nmin = kind, n, nmin
        self.lo, self.hi, self.is_list = lo, hi, is_list
        self.pool, self.nmax = pool, nmax
        self.inc = inc              # strictly increasing
        self.sampler = sampler

    def sym(self, cx, name):
        ip = cx.ip
        n = cx.dim(self.n, self.nmin)
        if is_z3(n) and self.nmax is not None:
            pass
        f = z3.Function('p_' + name, I, sort_of_kind(self.kind))
        k = z3.Int('$k')
        cs = []
        if self.kind != 'bool':
            cst = (lambda x: z3.RealVal(Fraction(repr(float(x))))
                   if self.kind == 'real' else z3.IntVal(x))
            if self.lo is not None:
                cs.append(f(k) >= cst(self.lo))
            if self.hi is not None:
                cs.append(f(k) <= cst(self.hi))
        if cs:
            if is_z3(n):
                ip.assume(z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < n), z3.And(*cs)), patterns=[f(k)]))
            else:
                for j in range(n):
                    ip.assume(z3.substitute(z3.And(*cs), (
                        k, z3.IntVal(j))))
        if self.inc:
            j = z3.Int('$j')
            ip.assume(z3.ForAll([j, k], z3.Implies(
                z3.And(0 <= j, j < k, k < Z(n)), f(j) < f(k)),
                patterns=[z3.MultiPattern(f(j), f(k))]))
        if not is_z3(n):
            a = const_array([f(j) for j in range(n)], self.kind,
                            self.is_list)
        else:
            a = ArrVal((n,), lambda ix: simp(f(Z(ix[0]))), self.kind,
                       self.is_list)
        return ip.alloc(a)

    def sample(self, cx):
        n = cx.dim(self.n, self.nmin)
        if self.sampler:
            xs = self.sampler(cx.rng, n)
        else:
            xs = [self.one(cx) for _ in range(n)]
        if self.inc:
            xs = sorted(set(xs))
            while len(xs) < n:
                xs = sorted(set(xs + [self.one(cx)]))
        return self.wrap(xs)

    def one(self, cx):
        if self.kind == 'bool':
            return cx.rng.random() < .5
        if self.pool:
            return cx.rng.choice(self.pool)
        lo = self.lo if self.lo is not None else -100
        hi = self.hi if self.hi is not None else 100
        if self.kind == 'int':
            return cx.rng.randint(lo, hi)
        return cx.rng.uniform(lo, hi)

    def wrap(self, xs):
        import numpy as np
        if self.is_list:
            return list(xs)
        return np.array(xs, dtype={'int': int, 'real': float,
                                   'bool': bool}[self.kind])

    def conc(self, v, ev, ip):
        a = ip.arr(v)
        n = ev(a.shape[0])
        if n > 40 or n < 0:
            raise ValueError('model too large')
        xs = [py_num(ev(a.get((k,)))) for k in range(n)]
        return self.wrap(xs)


class Mat(Sym):
    "2-D numpy array"
    def __init__(self, kind='int', rows='m', cols='n', rmin=0, cmin=0,
                 lo=None, hi=None, pool=None, sampler=None):
        self.kind, self.rows, self.cols = kind, rows, cols
        self.rmin, self.cmin, self.lo, self.hi = rmin, cmin, lo, hi
        self.pool = pool
        self.sampler = sampler

    def sym(self, cx, name):
        ip = cx.ip
        m, n = cx.dim(self.rows, self.rmin), cx.dim(self.cols, self.cmin)
        f = z3.Function('p_' + name, I, I, sort_of_kind(self.kind))
        j, k = z3.Int('$j'), z3.Int('$k')
        cs = []
        if self.kind != 'bool':
            cst = (lambda x: z3.RealVal(Fraction(repr(float(x))))
                   if self.kind == 'real' else z3.IntVal(x))
            if self.lo is not None:
                cs.append(f(j, k) >= cst(self.lo))
            if self.hi is not None:
                cs.append(f(j, k) <= cst(self.hi))
        if cs:
            ip.assume(z3.ForAll([j, k], z3.Implies(
                z3.And(j >= 0, j < Z(m), k >= 0, k < Z(n)), z3.And(*cs)),
                patterns=[f(j, k)]))
        return ip.alloc(ArrVal((m, n), lambda ix: simp(
            f(Z(ix[0]), Z(ix[1]))), self.kind))

    def sample(self, cx):
        import numpy as np
        m, n = cx.dim(self.rows, self.rmin), cx.dim(self.cols, self.cmin)
        if self.sampler:
            return self.sampler(cx.rng, m, n)
        a = Arr(self.kind, n, lo=self.lo, hi=self.hi, pool=self.pool)
        return np.array([[a.one(cx) for _ in range(n)] for _ in range(m)],
                        dtype={'int': int, 'real': float,
                               'bool': bool}[self.kind]).reshape(m, n)

    def conc(self, v, ev, ip):
        import numpy as np
        a = ip.arr(v)
        m, n = ev(a.shape[0]), ev(a.shape[1])
        if not (0 <= m <= 25 and 0 <= n <= 25):
            raise ValueError('model too large')
        return np.array([[py_num(ev(a.get((i, j)))) for j in range(n)]
                         for i in range(m)], dtype={
                             'int': int, 'real': float,
                             'bool': bool}[self.kind]).reshape(m, n)


class ArrList(Sym):
    "python list (symbolic length) of 1-D int arrays of their own lengths"
    def __init__(self, n='m', nmin=0, emin=0, lo=None, hi=None, pool=None,
                 emax=None, inner_list=False):
        self.n, self.nmin, self.emin = n, nmin, emin
        self.lo, self.hi, self.pool, self.emax = lo, hi, pool, emax
        self.inner_list = inner_list

    def sym(self, cx, name):
        ip = cx.ip
        m = cx.dim(self.n, self.nmin)
        f = z3.Function('p_' + name, I, I, I)
        ln = z3.Function('p_%s_len' % name, I, I)
        j, k = z3.Int('$j'), z3.Int('$k')
        ip.assume(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < Z(m)), ln(j) >= self.emin),
            patterns=[ln(j)]))
        cs = []
        if self.lo is not None:
            cs.append(f(j, k) >= self.lo)
        if self.hi is not None:
            cs.append(f(j, k) <= self.hi)
        if cs:
            ip.assume(z3.ForAll([j, k], z3.Implies(
                z3.And(j >= 0, j < Z(m), k >= 0, k < ln(j)), z3.And(*cs)),
                patterns=[f(j, k)]))
        return ip.alloc(ArrVal((m,), lambda ix: ArrVal(
            (simp(ln(Z(ix[0]))),), lambda iy, i=ix[0]: simp(
                f(Z(i), Z(iy[0]))), 'int', self.inner_list), 'obj', True))

    def sample(self, cx):
        import numpy as np
        m = cx.dim(self.n, self.nmin)
        out = []
        for _ in range(m):
            c2 = Ctx(rng=cx.rng, size=self.emax or cx.size)
            out.append(Arr('int', 'e', self.emin, self.lo, self.hi,
                           is_list=self.inner_list,
                           pool=self.pool).sample(c2))
        return out

    def conc(self, v, ev, ip):
        import numpy as np
        a = ip.arr(v)
        m = ev(a.shape[0])
        if not 0 <= m <= 12:
            raise ValueError('model too large')
        out = []
        for i in range(m):
            e = a.get((i,))
            n = ev(e.shape[0])
            if not 0 <= n <= 40:
                raise ValueError('model too large')
            xs = [ev(e.get((k,))) for k in range(n)]
            out.append(xs if self.inner_list else np.array(xs, dtype=int))
        return out


class Lst(Sym):
    def __init__(self, *items):
        self.items = items

    def sym(self, cx, name):
        return cx.ip.alloc(ListVal([s.sym(cx, '%s_%d' % (name, k))
                                    for k, s in enumerate(self.items)]))

    def sample(self, cx):
        return [s.sample(cx) for s in self.items]

    def conc(self, v, ev, ip):
        c = ip.content(v)
        return [s.conc(x, ev, ip) for s, x in zip(self.items, c.items)]


class Tup(Lst):
    def sym(self, cx, name):
        return tuple(s.sym(cx, '%s_%d' % (name, k))
                     for k, s in enumerate(self.items))

    def sample(self, cx):
        return tuple(s.sample(cx) for s in self.items)

    def conc(self, v, ev, ip):
        return tuple(s.conc(x, ev, ip) for s, x in zip(self.items, v))


class Derived(Sym):
    """attribute of a record fixed by other attributes (class invariant):
    value f(attributes it names); with `sym`, the proof uses a fresh value
    of that form, related to the others by the assumed equation (a fresh
    unrelated value when `rel` is False: the precondition relates it)"""
    def __init__(self, f, sym=None, rel=True):
        self.f, self.form, self.rel = f, sym, rel

    def of(self, cx, name, env):
        if self.form is None:
            return spec_value(cx.ip, self.f, env)
        v = self.form.sym(cx, name)
        if self.rel:
            cx.ip.assume(cmp('==', v, spec_value(cx.ip, self.f, env)))
        return v

    def conc(self, v, ev, ip):
        if self.form is not None:
            return self.form.conc(v, ev, ip)
        return py_num(ev(v))


class Obj(Sym):
    """record: the attributes the function under contract may read or write
    (those starting with an underscore only serve the derived ones)"""
    def __init__(self, cls, **attrs):
        self.cls = cls
        self.attrs = {k: (v if isinstance(v, Sym) else Const(v))
                      for k, v in attrs.items()}

    def values(self, one, derive):
        env = {k: one(k, s) for k, s in self.attrs.items()
               if not isinstance(s, Derived)}
        for k, s in self.attrs.items():
            if isinstance(s, Derived):
                env[k] = derive(k, s, env)
        return {k: env[k] for k in self.attrs if not k.startswith('_')}

    @property
    def stored(self):
        return {k: s for k, s in self.attrs.items()
                if not k.startswith('_')}

    def sym(self, cx, name):
        ip = cx.ip
        cv = None
        if self.cls:
            mod, c = self.cls.split(':')
            m = ip.repo.load(mod)
            if m is None or c not in m.names:
                raise Unsupported('class %s' % self.cls)
            cv = ClassVal(m.names[c][1], mod, c)
        return ip.alloc(ObjVal(cv, self.values(
            lambda k, s: s.sym(cx, '%s_%s' % (name, k)),
            lambda k, s, env: s.of(cx, '%s_%s' % (name, k), env))))

    def build(self, vals):
        if self.cls:
            mod, c = self.cls.split(':')
            try:
                k = getattr(importlib.import_module(mod), c)
            except ImportError:
                k = types.SimpleNamespace
            o = k.__new__(k)
        else:
            o = types.SimpleNamespace()
        for a, v in vals.items():
            setattr(o, a, v)
        o._dv = next(SERIAL)         # marks a partial stand-in
        return o

    def sample(self, cx):
        return self.build(self.values(
            lambda k, s: s.sample(cx),
            lambda k, s, env: eval_named(s.f, env)))

    def conc(self, v, ev, ip):
        c = ip.content(v)
        return self.build({k: s.conc(c.attrs[k], ev, ip)
                           for k, s in self.stored.items()})


class ObjList(Sym):
    """python list (symbolic length) of records; attributes are scalars,
    constants or, as ('vec', kind, n), arrays of fixed length n"""
    def __init__(self, n='m', nmin=0, cls=None, **attrs):
        self.n, self.nmin, self.cls, self.attrs = n, nmin, cls, attrs

    def sym(self, cx, name):
        ip = cx.ip
        m = cx.dim(self.n, self.nmin)
        cv = None
        if self.cls:
            mod, c = self.cls.split(':')
            md = ip.repo.load(mod)
            if md is None or c not in md.names:
                raise Unsupported('class %s' % self.cls)
            cv = ClassVal(md.names[c][1], mod, c)
        fs = {}
        j = z3.Int('$j')
        for k, s in self.attrs.items():
            if isinstance(s, Const):
                v = lift_const(ip, s.v)
                fs[k] = lambda i, v=v: v
                continue
            if isinstance(s, Arr):
                # array of fixed length
                sort = I if s.kind == 'int' else R
                f = z3.Function('p_%s_%s' % (name, k), I, I, sort)
                fs[k] = lambda i, f=f, s=s: ArrVal((int(s.n),), lambda ix: simp(
                    f(Z(i), Z(ix[0]))), s.kind, s.is_list)
                q = z3.Int('$q')
                cst = (lambda x: z3.RealVal(Fraction(repr(float(x))))
                       if s.kind == 'real' else z3.IntVal(x))
                cs = [f(j, q) >= cst(s.lo)] * (s.lo is not None) \
                    + [f(j, q) <= cst(s.hi)] * (s.hi is not None)
                if cs:
                    ip.assume(z3.ForAll([j, q], z3.And(*cs),
                                        patterns=[f(j, q)]))
                continue
            sort = B if isinstance(s, Bool) else I if isinstance(s, Int) \
                else R
            f = z3.Function('p_%s_%s' % (name, k), I, sort)
            fs[k] = lambda i, f=f: simp(f(Z(i)))
            cs = []
            if not isinstance(s, Bool):
                cst = (lambda x: z3.RealVal(Fraction(repr(float(x))))
                       if sort == R else z3.IntVal(x))
                if s.lo is not None:
                    cs.append(f(j) >= cst(s.lo))
                if s.hi is not None:
                    cs.append(f(j) <= cst(s.hi))
            if cs:
                ip.assume(z3.ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < Z(m)), z3.And(*cs)),
                    patterns=[f(j)]))
        return ip.alloc(ArrVal((m,), lambda ix: ObjVal(
            cv, {k: f(ix[0]) for k, f in fs.items()}), 'obj', True))

    def sample(self, cx):
        m = cx.dim(self.n, self.nmin)
        o = Obj(self.cls, **self.attrs)
        return [o.sample(cx) for _ in range(m)]

    def conc(self, v, ev, ip):
        a = ip.arr(v)
        m = ev(a.shape[0])
        if not 0 <= m <= 12:
            raise ValueError('model too large')
        o = Obj(self.cls, **self.attrs)
        out = []
        for i in range(m):
            e = a.get((i,))
            out.append(o.build({k: (s.v if isinstance(s, Const) else
                                    s.conc(e.attrs[k], ev, ip)
                                    if isinstance(s, Arr) else
                                    py_num(ev(e.attrs[k])))
                                for k, s in self.attrs.items()}))
        return out


class Ghost(Sym):
    "value shared under a name between parameters (e.g. an aliased scalar)"
    def __init__(self, key, s):
        self.key, self.s = key, s

    def sym(self, cx, name):
        if self.key not in cx.vals:
            cx.vals[self.key] = self.s.sym(cx, self.key)
        return cx.vals[self.key]

    def sample(self, cx):
        if self.key not in cx.vals:
            cx.vals[self.key] = self.s.sample(cx)
        return copy.deepcopy(cx.vals[self.key])

    def conc(self, v, ev, ip):
        return self.s.conc(v, ev, ip)


def conc_any(s, v, ev, ip):
    "concretise by the shape of the symbolic value (used for case splits)"
    if isinstance(s, OneOf):
        # find the alternative whose form fits
        for a in s.alts:
            try:
                x = conc_any(a, v, ev, ip)
            except ValueError:
                raise
            except Exception:
                continue
            if x is _NOFIT:
                continue
            return x
        raise TypeError('no alternative fits')
    if isinstance(s, Const):
        t = s.v
        if is_z3(v):
            return _NOFIT
        if t is None or isinstance(t, (bool, int, str, float)):
            if isinstance(v, (bool, int, str, Fraction)) or v is None:
                if type(norm_const(t)) is type(v) and norm_const(t) == v:
                    return t
            return _NOFIT
        return copy.deepcopy(t)
    if isinstance(s, SBool):
        return s.conc(v, ev, ip) if is_z3(v) else _NOFIT
    if isinstance(s, Bool):
        return bool(v) if isinstance(v, bool) else _NOFIT
    if isinstance(s, Dim):
        return s.conc(v, ev, ip)
    if isinstance(s, (Int, Real)):
        return s.conc(v, ev, ip) if is_z3(v) else _NOFIT
    if isinstance(s, Obj):
        c = ip.content(v)
        if not isinstance(c, ObjVal):
            return _NOFIT
        return s.build({k: conc_any(q, c.attrs[k], ev, ip)
                        for k, q in s.stored.items()})
    if isinstance(s, Tup):
        return tuple(conc_any(q, x, ev, ip) for q, x in zip(s.items, v)) \
            if isinstance(v, tuple) else _NOFIT
    if isinstance(s, Lst):
        c = ip.content(v)
        return [conc_any(q, x, ev, ip) for q, x in zip(s.items, c.items)] \
            if isinstance(c, ListVal) else _NOFIT
    if isinstance(s, Ghost):
        return conc_any(s.s, v, ev, ip)
    if not ip.is_arr(v):
        return _NOFIT
    a = ip.arr(v)
    if isinstance(s, Arr) and (a.ndim != 1 or a.is_list != s.is_list or
                               a.kind != s.kind):
        return _NOFIT
    if isinstance(s, Mat) and a.ndim != 2:
        return _NOFIT
    if isinstance(s, (ArrList, ObjList)) and a.kind != 'obj':
        return _NOFIT
    return s.conc(v, ev, ip)


_NOFIT = object()
SERIAL = itertools.count()
BLIND = 'reads an attribute the contract does not describe'


def standins(v, acc=None):
    "partial stand-ins reachable from a concrete value"
    acc = {} if acc is None else acc
    if isinstance(v, (list, tuple)):
        for x in v:
            standins(x, acc)
    elif isinstance(v, dict):
        for x in v.values():
            standins(x, acc)
    elif hasattr(v, '__dict__') and not isinstance(v, type):
        d = vars(v)
        if isinstance(d.get('_dv'), int) and d['_dv'] not in acc:
            acc[d['_dv']] = v
            for x in list(d.values()):
                standins(x, acc)
    return acc


def real_attribute(o, name):
    """the value the real class gives to an attribute the stand-in lacks:
    its constructor, called with the attributes the stand-in has"""
    cls = type(o)
    if cls is types.SimpleNamespace:
        raise TypeError('record without class')
    ps = list(inspect.signature(cls.__init__).parameters)[1:]
    kw = {k: copy.deepcopy(v) for k, v in vars(o).items() if k in ps}
    return getattr(cls(**kw), name)


def completed(ct, vals, e):
    """inputs with the missing attribute of a stand-in filled in, None when
    the AttributeError is the doing of the code, BLIND when no value is
    known"""
    o, nm = getattr(e, 'obj', None), getattr(e, 'name', None)
    if o is None or ct.fn.endswith('.__init__') or isinstance(o, type):
        return None
    part = isinstance(vars(o).get('_dv') if hasattr(o, '__dict__')
                      else None, int)
    mine = type(o) is types.SimpleNamespace or type(
        o).__module__.startswith('contracts.')
    if not part and not mine:
        return None
    cls = None
    if type(o).__module__.startswith('src.'):
        cls = (type(o).__module__, type(o).__name__)
    if nm not in REPO_INDEX().attributes_of(cls):
        return None
    if not part:
        return BLIND
    vals = copy.deepcopy(vals)
    q = standins(vals).get(o._dv)
    if q is None or hasattr(q, nm):
        return BLIND
    try:
        setattr(q, nm, real_attribute(q, nm))
    except Exception:
        return BLIND
    return vals


_INDEX = []


def REPO_INDEX():
    if not _INDEX:
        _INDEX.append(Repo())
    return _INDEX[0]


class Contract:
    """name: obligation prefix; fn: 'module:function'; params: dict name ->
    Sym (call order); requires/ensures: executable spec functions taking the
    parameters they name (old values), `r` the result, `new_<p>` the value of
    a mutable parameter after the call."""

    def __init__(self, name, fn, params, ensures=(), requires=None, raises=None,
                 modifies=(), mode='proof', proof_tier='quick', samples=300, size=7,
                 kwargs=(), generate=None, modular=(), note='',
                 call=None, proof_call=None, exhaustive=None, setup=None,
                 timeout=20, externals=None, result=None, abstract=()):
        self.name, self.fn, self.params = name, fn, params
        self.ensures = list(ensures) if isinstance(
            ensures, (list, tuple)) else [ensures]
        self.result = result        # exact value of the result (spec)
        self.requires = requires
        self.raises = raises or {}
        self.modifies = tuple(modifies)
        self.mode = mode
        self.proof_tier = proof_tier
        self.samples, self.size = samples, size
        self.kwargs = tuple(kwargs)
        self.generate = generate
        self.modular = tuple(modular)
        self.note = note
        self.call = call
        self.exhaustive = exhaustive
        self.setup = setup
        self.timeout = timeout
        self.externals = externals or {}
        self.abstract = tuple(abstract)


# ------------------------------------------------------------------ proof
def spec_fv(repo, f):
    return repo.find_function('%s:%s' % (f.__module__, f.__name__))


def spec_eval(ip, f, env):
    return ip.to_cond(spec_value(ip, f, env))


def spec_value(ip, f, env):
    "evaluate a spec function in spec mode"
    fv = spec_fv(ip.repo, f)
    names = [a.arg for a in fv.node.args.args]
    kw = {}
    for n in names:
        if n in env:
            kw[n] = env[n]
    ip.spec_mode += 1
    saved = ip.loc
    try:
        return ip.call_func(fv, [], kw)
    finally:
        ip.spec_mode -= 1
        ip.loc = saved


def use_contract(other):
    """the contract of a callee used in place of its body: its precondition
    is an obligation of the caller, its exact result the value"""
    def handler(ip, fv, args, kwargs):
        env = ip.bind(fv, args, kwargs)
        nm = other.name
        if other.requires is not None:
            ip.oblige('callee-pre', spec_eval(ip, other.requires, env),
                      nm)
        for g in other.raises.values():
            c = spec_eval(ip, g, env)
            ip.oblige('callee-pre', Not(c), nm + ' raises nothing')
        ip.assumed_used.add('contract of %s (verified separately: %s)' % (
            other.fn, nm))
        v = spec_value(ip, other.result, env)
        return v
    return handler


class ProofOutcome:
    def __init__(self):
        self.status = 'proved'       # proved / failed / unsupported
        self.obligs = []             # (name, kind, status, backend, time)
        self.failed = []             # (name, status, detail, model inputs)
        self.reason = ''
        self.paths = 0
        self.loops = 0
        self.functions = []
        self.assumed = []
        self.solver = {}
        self.vacuous = False
        self.candidates = []


def prove(ct, contracts_by_fn=None, want_inputs=True, rlimit=None,
          max_fail=4, verbose=False, stop_first=False):
    out = ProofOutcome()
    t0 = time.time()
    prover.STATS['queries'] = 0
    prover.STATS['time'] = 0.0
    try:
        _prove(ct, out, want_inputs, rlimit, max_fail, verbose)
    except (Unsupported, NeedFork, PoisonRead, RecursionError) as e:
        out.status = 'unsupported'
        out.reason = '%s: %s' % (type(e).__name__, e)
    except z3.Z3Exception as e:
        out.status = 'unsupported'
        out.reason = 'Z3Exception: %s' % e
    out.solver = {'queries': prover.STATS['queries'],
                  'solver_seconds': round(prover.STATS['time'], 2),
                  'wall_seconds': round(time.time() - t0, 2)}
    return out


def make_params(ip, ct):
    cx = Ctx(ip=ip)
    vals = {}
    for n, s in ct.params.items():
        vals[n] = s.sym(cx, n)
    return vals


def _prove(ct, out, want_inputs, rlimit, max_fail, verbose):
    repo = Repo()
    if not signature_fits(ct):
        raise Unsupported('%s is missing or takes other parameters' % ct.fn)
    ip = Exec(repo)
    ip.partial = not ct.fn.endswith('.__init__')
    ip.externals = ct.externals
    ip.abstract = {(f.__module__, f.__name__) for f in ct.abstract}
    ip.contracts = {tuple(o.fn.split(':')): use_contract(o)
                    for o in ct.modular}
    fv = repo.find_function(ct.fn)
    ip.frame = Frame({}, fv.mod)
    info = {}
    seen = {}
    order = []
    reach = {'pre': False, 'returns': 0}

    def post(tag, goal):
        ip.obligs.append(Oblig(tag, list(ip.pc), goal, tag, 'post'))

    def thunk():
        ip.obligs = []
        ip.frame = Frame({}, fv.mod)
        vals = make_params(ip, ct)
        ghost = {n: npmodel.deep(ip, v, {}) for n, v in vals.items()}
        if ct.requires is not None:
            c = spec_eval(ip, ct.requires, ghost)
            ip.assume(c)
        npre = len(ip.pc)
        live_ids = {n: dict_reach(ip, v) for n, v in vals.items()}
        init = dict(ip.heap)
        exc = None
        args = [vals[n] for n in ct.params if n not in ct.kwargs]
        kw = {n: vals[n] for n in ct.kwargs}
        try:
            f = fv
            if '.' in (fv.name or ''):
                f = FuncVal(fv.node, fv.mod, None, fv.name, args[0])
                args = args[1:]
            r = ip.call_func(f, args, kw)
        except PyRaise as e:
            exc = e
            r = None
        env = dict(ghost)
        env['r'] = r
        for n in vals:
            env['new_' + n] = vals[n]
        if exc is not None:
            if exc.name in ct.raises:
                post('raises %s only as specified' % exc.name,
                     spec_eval(ip, ct.raises[exc.name], env))
            else:
                post('no %s (%s) %s' % (exc.name, exc.info, ip.loc), False)
        else:
            reach['returns'] += 1
            for nm, f in ct.raises.items():
                c = spec_eval(ip, f, env)
                post('%s raised when required' % nm,
                     Not(c) if is_z3(c) else (not c))
            if ct.result is not None:
                w = spec_value(ip, ct.result, env)
                if not is_scalar(r) or not is_scalar(w):
                    raise Unsupported('result spec of non scalar')
                if kind_of(r) == 'bool' or kind_of(w) == 'bool':
                    post('result ' + ct.result.__name__, cmp(
                        '==', to_kind(r, 'bool'), to_kind(w, 'bool')))
                else:
                    post('result ' + ct.result.__name__, cmp('==', r, w))
            for f in ct.ensures:
                post('ensures ' + f.__name__, spec_eval(ip, f, env))
            for n in vals:
                if n in ct.modifies:
                    continue
                for i in live_ids[n]:
                    frame_goal(ip, post, n, i, init)
        for o in ip.obligs:
            h = tuple(x.get_id() for x in o.hyps if is_z3(x))
            g = o.goal.get_id() if is_z3(o.goal) else o.goal
            key = (o.name, h, g)
            if key not in seen:
                o.vals = ghost
                o.heap = dict(ip.heap)
                seen[key] = o
                order.append(o)
        return 'return', None, None

    try:
        paths = ip.explore(thunk)
    finally:
        out.functions = sorted(ip.functions_used)
        out.assumed = sorted(ip.assumed_used)
        out.loops = ip.stats['loops']
    out.paths = len(paths)
    if not paths:
        out.vacuous = True
        out.status = 'failed'
        out.reason = 'precondition is contradictory'
        return
    # reachability of the precondition (vacuity check)
    vac_names = {}
    nfail = 0
    groups = {}
    for o in order:
        groups.setdefault(o.name, []).append(o)
    for o in order:
        if o.goal is True:
            out.obligs.append((o.name, o.kind, 'proved', 'syntactic', 0.0))
            continue
        kw = {} if rlimit is None else {'rlimit': rlimit}
        res = prover.discharge(o.hyps, o.goal, **kw)
        out.obligs.append((o.name, o.kind, res.status, res.backend,
                           round(res.time, 3)))
        if verbose:
            print('  %-8s %-20s %s (%.2fs)' % (res.status, res.backend,
                                               o.name, res.time), flush=True)
        if res.status != 'proved':
            out.status = 'failed'
            out.failed.append({'obligation': o.name, 'kind': o.kind,
                               'status': res.status, 'detail': res.detail})
            if want_inputs:
                out.candidates += candidates(ip, ct, o, res)
            nfail += 1
            if nfail >= max_fail:
                out.reason = 'stopped after %d failed obligations' % nfail
                break
    if not out.obligs:
        out.status = 'failed'
        out.reason = 'no obligation generated'
    if reach['returns'] == 0 and not ct.raises:
        out.status = 'failed'
        out.reason = 'no normal return reachable'


def dict_reach(ip, v, acc=None):
    acc = [] if acc is None else acc
    if isinstance(v, Ref):
        if v.id in acc:
            return acc
        acc.append(v.id)
        c = ip.heap[v.id]
        if isinstance(c, ListVal):
            for x in c.items:
                dict_reach(ip, x, acc)
        elif isinstance(c, ObjVal):
            for x in c.attrs.values():
                dict_reach(ip, x, acc)
        elif isinstance(c, DictVal):
            for x in c.items.values():
                dict_reach(ip, x, acc)
    elif isinstance(v, tuple):
        for x in v:
            dict_reach(ip, x, acc)
    return acc


def frame_goal(ip, post, n, i, init):
    a, b = init[i], ip.heap.get(i)
    if a is b:
        return
    if isinstance(a, ArrVal) and isinstance(b, ArrVal) and a.kind != 'obj' \
            and a.ndim == b.ndim and b.kind != 'obj':
        xs = [ip.fresh('fr', I) for _ in a.shape]
        rng = And(*[And(cmp('>=', x, 0), cmp('<', x, s))
                    for x, s in zip(xs, a.shape)])
        post('frame: %s unchanged (shape)' % n, And(*[
            cmp('==', s, t) for s, t in zip(a.shape, b.shape)]))
        post('frame: %s unchanged' % n, Implies(rng, cmp(
            '==', a.get(tuple(xs)), b.get(tuple(xs)))))
        return
    if isinstance(a, ListVal) and isinstance(b, ListVal) and \
            len(a.items) == len(b.items):
        ok = True
        for x, y in zip(a.items, b.items):
            if x is y or (isinstance(x, Ref) and x == y):
                continue
            if is_scalar(x) and is_scalar(y):
                post('frame: %s unchanged' % n, cmp('==', x, y))
                continue
            ok = False
        if ok:
            return
    if isinstance(a, ObjVal) and isinstance(b, ObjVal) and \
            set(a.attrs) == set(b.attrs):
        for k, x in a.attrs.items():
            y = b.attrs[k]
            if x is y or (isinstance(x, Ref) and x == y):
                continue
            if is_scalar(x) and is_scalar(y):
                post('frame: %s.%s unchanged' % (n, k), cmp('==', x, y))
                continue
            post('frame: %s.%s unchanged' % (n, k), False)
        return
    post('frame: %s unchanged' % n, False)


def model_eval(m):
    def ev(v):
        if not is_z3(v):
            return v
        x = simp(m.eval(v, model_completion=True))
        if is_z3(x):
            if z3.is_algebraic_value(x):
                return Fraction(x.approx(12).as_fraction())
            raise TypeError('no value')
        return x
    return ev


def candidates(ip, ct, o, res):
    "concrete inputs suggested by the solver for a failed obligation"
    outs = []
    hyps = prover.skolem_hyps([Z(h) for h in o.hyps])
    dims = [c for c in free_dims(o) if c.sort() == I]
    heap0 = ip.heap
    pairs = prover.strip_goal(Z(o.goal))[:4] or [([], z3.BoolVal(False))]
    tries = 0
    for extra, g in pairs:
        hs = prover.skolem_hyps(hyps + extra) + [z3.simplify(z3.Not(g))]
        for bound in (2, 4, 6, 9, None):
            lim = [d <= bound for d in dims] if bound else []
            st, m = prover.check_sat(hs + lim, 2000000, want_model=True)
            tries += 1
            if m is None or st == 'unsat':
                continue
            try:
                ip.heap = o.heap
                vals = {n: conc_any(s, o.vals[n], model_eval(m), ip)
                        for n, s in ct.params.items()}
                outs.append(vals)
            except Exception:
                continue
            finally:
                ip.heap = heap0
            if st == 'sat':
                break
    return outs


def free_dims(o):
    out = {}
    for h in list(o.hyps) + [o.goal]:
        if is_z3(h):
            for c in prover.free_consts(h):
                if c.decl().name().startswith('dim_'):
                    out[c.decl().name()] = c
    return list(out.values())


# --------------------------------------------------------------- concrete
class CallTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise CallTimeout()


def load_target(fn):
    mod, name = fn.split(':')
    m = importlib.import_module(mod)
    o = m
    for part in name.split('.'):
        o = getattr(o, part)
    return o


def eval_named(f, env):
    names = list(inspect.signature(f).parameters)
    return f(**{n: env[n] for n in names if n in env})


def same_value(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a2, b2 = np.asarray(a), np.asarray(b)
        except ValueError:
            return len(a) == len(b) and all(
                same_value(x, y) for x, y in zip(a, b))
        if a2.shape != b2.shape:
            return False
        if a2.dtype == object or b2.dtype == object:
            return all(same_value(x, y) for x, y in zip(
                a2.ravel(), b2.ravel()))
        return bool(np.array_equal(a2, b2, equal_nan=(
            a2.dtype.kind == 'f' and b2.dtype.kind == 'f')))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(
            same_value(a[k], b[k]) for k in a)
    if hasattr(a, '__dict__') and hasattr(b, '__dict__') and \
            not isinstance(a, type) and not callable(a):
        return same_value(vars(a), vars(b))
    try:
        return bool(a == b)
    except Exception:
        return a is b


def signature_fits(ct, f=None):
    "the function still takes the parameters the contract names"
    if ct.call is not None:
        return True
    try:
        f = f or load_target(ct.fn)
        sg = inspect.signature(f)
    except (ImportError, AttributeError):
        return False
    except (TypeError, ValueError):
        return True
    args = [0 for n in ct.params if n not in ct.kwargs]
    try:
        sg.bind(*args, **{n: 0 for n in ct.kwargs})
    except TypeError:
        return False
    return True


def run_concrete(ct, vals, target=None, depth=0):
    """evaluate the contract on the real function; returns None (held),
    'skip' (precondition false), 'blind' (the function reads an attribute
    the stand-in objects lack) or a description of the violation"""
    env = {n: copy.deepcopy(v) for n, v in vals.items()}
    if ct.requires is not None:
        try:
            ok = bool(eval_named(ct.requires, env))
        except Exception:
            ok = False
        if not ok:
            return 'skip'
    f = target or load_target(ct.fn)
    live = copy.deepcopy(vals)
    args = [live[n] for n in ct.params if n not in ct.kwargs]
    kw = {n: live[n] for n in ct.kwargs}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, ct.timeout)
    exc = None
    r = None
    devnull = open(os.devnull, 'w')
    so = sys.stdout
    try:
        sys.stdout = devnull
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if ct.call is not None:
                r = ct.call(f, *args, **kw)
            else:
                r = f(*args, **kw)
    except CallTimeout:
        return 'no result within %d s' % ct.timeout
    except Exception as e:
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = so
        devnull.close()
    env['r'] = r
    for n in live:
        env['new_' + n] = live[n]
    if isinstance(exc, AttributeError) and 'AttributeError' not in ct.raises \
            and depth < 12:
        more = completed(ct, vals, exc)
        if more is BLIND:
            return 'blind'
        if more is not None:
            return run_concrete(ct, more, target, depth + 1)
    if exc is not None:
        nm = type(exc).__name__
        names = [c.__name__ for c in type(exc).__mro__]
        for k in names:
            if k in ct.raises:
                if eval_named(ct.raises[k], env):
                    return None
                return 'raised %s (%s) although the contract excludes it' % (
                    nm, exc)
        return 'raised %s: %s' % (nm, exc)
    for k, g in ct.raises.items():
        if eval_named(g, env):
            return 'returned %r although %s is required' % (short(r), k)
    if ct.result is not None:
        w = eval_named(ct.result, env)
        try:
            ok = (r is not None and abs(r - w) <= 1e-9 * max(1, abs(w))
                  if not isinstance(w, (bool, np.bool_)) else
                  r is not None and bool(r) == bool(w))
        except Exception as e:
            ok = False
        if not ok:
            return 'result %s, expected %s' % (short(r), short(w))
    for g in ct.ensures:
        try:
            ok = bool(eval_named(g, env))
        except Exception as e:
            return 'postcondition %s not evaluable on result %s (%s: %s)' % (
                g.__name__, short(r), type(e).__name__, e)
        if not ok:
            return 'postcondition %s false, result %s' % (
                g.__name__, short(r))
    for n in live:
        if n not in ct.modifies and not same_value(live[n], vals[n]):
            return 'parameter %s was modified' % n
    return None


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def sample_inputs(ct, seed, count):
    rng = random.Random('%s-%s' % (seed, ct.name))
    if ct.exhaustive is not None:
        for vals in ct.exhaustive():
            yield vals
    k = 0
    while k < count:
        size = ct.size if k % 3 else max(2, ct.size // 2)
        if k % 7 == 6:
            size = ct.size * 2
        if ct.generate is not None:
            vals = ct.generate(rng, size)
            if vals is None:
                k += 1
                continue
        else:
            cx = Ctx(rng=rng, size=size)
            vals = {n: s.sample(cx) for n, s in ct.params.items()}
        yield vals
        k += 1

"""Meaning of the Python / numpy primitives used by the code under contract.
This is the trusted base of the verifier (cross-checked against CPython by
dv/selftest.py)."""
import z3
from fractions import Fraction
from .values import *
from .prover import SUMS, free_consts

EXC_NAMES = {
    'Exception', 'ValueError', 'TypeError', 'IndexError', 'KeyError',
    'AttributeError', 'ZeroDivisionError', 'RuntimeError', 'NameError',
    'NotImplementedError', 'AssertionError', 'ArithmeticError',
    'LookupError', 'BaseException', 'OverflowError', 'UnboundLocalError',
    'Warning', 'UserWarning', 'StopIteration', 'FloatingPointError'}

BUILTINS = {
    'range', 'len', 'sum', 'abs', 'min', 'max', 'enumerate', 'zip',
    'reversed', 'set', 'list', 'tuple', 'int', 'float', 'bool', 'isinstance',
    'hasattr', 'any', 'all', 'print', 'sorted', 'str', 'round', 'type',
    'dict', 'pow', 'super', 'map', 'filter', 'repr', 'frozenset', 'object',
    'getattr', 'id', 'next', 'iter', 'divmod'}

ARRAY_METHODS = {
    'all', 'any', 'sum', 'copy', 'astype', 'reshape', 'flatten', 'ravel',
    'tolist', 'min', 'max', 'argmin', 'argmax', 'mean', 'dot', 'transpose',
    'fill', 'item', 'round', 'prod', 'nonzero', 'cumsum', 'sort', 'argsort',
    'tostring', 'tobytes'}

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def call_builtin(ip, name, args, kw):
    f = TABLE.get(name)
    if f is not None:
        return f(ip, args, kw)
    if name.startswith('exc.'):
        return Builtin(name)
    if name.startswith('src.divers.pretty_print.'):
        # prints only
        ip.assumed_used.add(name + ' only prints')
        return None
    ext = getattr(ip, 'externals', {}).get(name)
    if ext is not None:
        ip.assumed_used.add(name)
        return ext(ip, args, kw)
    raise Unsupported('call of %s' % name)


# ------------------------------------------------------------------ helpers
def dtype_kind(d, default='real'):
    if d is None:
        return default
    if isinstance(d, Builtin):
        n = d.name
    elif isinstance(d, str):
        n = d
    else:
        raise Unsupported('dtype')
    n = n.split('.')[-1].replace('dtype:', '')
    if n.startswith('int') or n.startswith('uint'):
        return 'int'
    if n.startswith('float') or n == 'real':
        return 'real'
    if n.startswith('bool'):
        return 'bool'
    raise Unsupported('dtype %s' % n)


def shape_of(ip, v):
    if isinstance(v, tuple):
        return [dim(x) for x in v]
    if ip.is_arr(v):
        a = ip.arr(v)
        if is_z3(a.shape[0]):
            raise Unsupported('shape list')
        return [dim(a.get((k,))) for k in range(a.shape[0])]
    return [dim(v)]


def dim(x):
    x = num(x)
    if kind_of(x) == 'real':
        raise PyRaise('TypeError', 'float dimension')
    if not is_z3(x) and x < 0:
        raise PyRaise('ValueError', 'negative dimension')
    return x


def deep_arr(ip, v):
    "n-d functional array from nested lists / arrays"
    a = ip.arr(v)
    if not a.is_list:
        return a
    if a.kind != 'obj' or (not is_z3(a.shape[0]) and a.shape[0] == 0):
        if a.kind == 'obj':
            raise Unsupported('object array')
        return a
    n = a.shape[0]
    if not is_z3(n):
        subs = []
        for k in range(n):
            x = a.get((k,))
            if not (isinstance(x, (ArrVal, tuple)) or ip.is_arr(x)):
                raise Unsupported('object array')
            subs.append(deep_arr(ip, x))
        nd = subs[0].ndim
        sh = subs[0].shape
        kind = subs[0].kind
        for s in subs[1:]:
            if s.ndim != nd:
                raise Unsupported('ragged array')
            for p, q in zip(s.shape, sh):
                c = cmp('==', p, q)
                if c is False:
                    raise Unsupported('ragged array')
                if c is not True:
                    ip.oblige('shape', c, 'nested list')
            kind = join_kind(kind, s.kind)

        def g(ix):
            i = ix[0]
            if not is_z3(i):
                return to_kind(subs[i].get(tuple(ix[1:])), kind)
            r = to_kind(subs[-1].get(tuple(ix[1:])), kind)
            for k in range(n - 2, -1, -1):
                r = ite(cmp('==', i, k), to_kind(
                    subs[k].get(tuple(ix[1:])), kind), r)
            return r
        return ArrVal((n,) + sh, g, kind)
    k = ip.fresh('dk', I)
    x = a.get((k,))
    if isinstance(x, tuple):
        m = len(x)
        kind = 'int'
        for y in x:
            kind = join_kind(kind, kind_of(y))
        return ArrVal((n, m), lambda ix: const_array([
            to_kind(y, kind) for y in a.get((ix[0],))]).get((ix[1],)), kind)
    if not isinstance(x, ArrVal):
        raise Unsupported('object array')
    for s in x.shape:
        if is_z3(s) and any(c.eq(k) for c in free_consts(s)):
            raise Unsupported('ragged symbolic list')
    return ArrVal((n,) + x.shape, lambda ix: a.get((ix[0],)).get(
        tuple(ix[1:])), x.kind)


def as_arr(ip, v):
    if is_scalar(v):
        return ArrVal((), lambda ix: v, kind_of(v))
    return deep_arr(ip, v)


def plain(a, kind=None):
    "array copy with is_list cleared and a given kind"
    if kind is None or kind == a.kind:
        return ArrVal(a.shape, a.get, a.kind)
    return ArrVal(a.shape, lambda ix: to_kind(a.get(ix), kind), kind)


def family(ip, v):
    "(n, elem, kind) of an iterable of scalars"
    if isinstance(v, Ref) and isinstance(ip.heap[v.id], SetVal):
        s = ip.heap[v.id]
        if is_z3(num(s.n)) or s.excl:
            raise Unsupported('reduction over a set')
        v = tuple(set_items(ip, s))
    n, el = ip.iterable(v)
    if ip.is_arr(v):
        k = ip.arr(v).kind
        if ip.arr(v).ndim != 1:
            raise Unsupported('reduction of a matrix')
    elif isinstance(v, RangeVal):
        k = 'int'
    elif isinstance(v, tuple):
        k = 'int'
        for x in v:
            k = join_kind(k, kind_of(x))
    else:
        probe = el(ip.fresh('pk', I)) if is_z3(n) else (
            el(0) if n else 0)
        k = kind_of(probe) if is_scalar(probe) else 'obj'
    return n, el, k


def set_items(ip, s):
    "distinct items of a concretely sized set (constants only)"
    out = []
    for k in range(s.n):
        x = s.gen(k)
        if is_z3(x):
            raise Unsupported('symbolic set')
        if x not in out and x not in s.excl:
            out.append(x)
    return out


def axis_reduce(ip, a, axis, f1):
    """reduce over one axis or over everything; f1(n, elem) -> scalar"""
    if axis is None:
        if a.ndim == 1:
            return f1(a.shape[0], lambda k: a.get((k,)))
        if a.ndim == 0:
            return a.get(())
        if a.ndim == 2:
            inner = lambda i: f1(a.shape[1], lambda j: a.get((i, j)))
            return f1(a.shape[0], inner)
        raise Unsupported('reduction ndim')
    axis = int(axis)
    if axis < 0:
        axis += a.ndim
    if axis >= a.ndim:
        raise PyRaise('AxisError')
    if a.ndim == 1:
        return f1(a.shape[0], lambda k: a.get((k,)))
    sh = a.shape[:axis] + a.shape[axis + 1:]

    def g(ix):
        return f1(a.shape[axis], lambda k: a.get(
            tuple(ix[:axis]) + (k,) + tuple(ix[axis:])))
    return sh, g


def red(ip, a, axis, f1, kind):
    r = axis_reduce(ip, a, axis, f1)
    if isinstance(r, tuple):
        return ip.alloc(ArrVal(r[0], r[1], kind))
    return r


# ------------------------------------------------------------ python builtins
@reg('range')
def _range(ip, args, kw):
    a = [num(x) for x in args]
    for x in a:
        if kind_of(x) == 'real':
            raise PyRaise('TypeError', 'float range')
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (
        (a[0], a[1], 1) if len(a) == 2 else a)
    if is_z3(st):
        if ip.entails(st > 0):
            n = ip.sel(cmp('>', hi, lo), floordiv(sub(add(sub(
                hi, lo), st), 1), st), 0)
            return RangeVal(lo, n, st)
        raise Unsupported('symbolic range step')
    if st == 0:
        raise PyRaise('ValueError', 'range step')
    if st > 0:
        d = sub(hi, lo)
        if st != 1:
            d = floordiv(add(d, st - 1), st)
        n = ip.sel(cmp('>=', hi, lo), d, 0)
    else:
        d = sub(lo, hi)
        if st != -1:
            d = floordiv(add(d, -st - 1), -st)
        n = ip.sel(cmp('>=', lo, hi), d, 0)
    return RangeVal(lo, n, st)


@reg('len')
def _len(ip, args, kw):
    v = args[0]
    c = ip.content(v)
    if isinstance(c, SetVal):
        if not is_z3(num(c.n)):
            return len(set_items(ip, c))
        raise Unsupported('len of set')
    if isinstance(c, ObjVal) or is_scalar(v) or v is None:
        raise PyRaise('TypeError', 'len')
    return ip.seq_len(v)


@reg('sum')
def _sum(ip, args, kw):
    v = args[0]
    if is_scalar(v) or v is None:
        raise PyRaise('TypeError', 'not iterable')
    start = args[1] if len(args) > 1 else 0
    if ip.is_arr(v) and not ip.is_list(v) and ip.arr(v).ndim > 1:
        return red(ip, ip.arr(v), 0, lambda n, e: ip.reduce_sum(
            n, e, ip.arr(v).kind), ip.arr(v).kind)
    n, el, k = family(ip, v)
    if k == 'obj':
        # sum of arrays, concrete count only
        if is_z3(num(n)):
            raise Unsupported('sum of objects')
        r = start
        for i in range(n):
            r = ip.binop('Add', r, el(i))
        return r
    return add(start, ip.reduce_sum(n, el, 'int' if k == 'bool' else k))


@reg('abs', 'np.abs', 'np.absolute', 'math.fabs')
def _abs(ip, args, kw):
    v = args[0]
    if isinstance(v, tuple) or ip.is_arr(v):
        a = deep_arr(ip, v) if not isinstance(v, tuple) else ip.arr(v)
        if a.kind == 'bool':
            return ip.alloc(plain(a))
        return ip.alloc(ArrVal(a.shape, lambda ix: absv(a.get(ix)), a.kind))
    return absv(v)


def _mm(ip, args, kw, ismin):
    if len(args) > 1:
        r = args[0]
        for x in args[1:]:
            r = minv(r, x) if ismin else maxv(r, x)
        return r
    n, el, k = family(ip, args[0])
    if k == 'obj':
        raise Unsupported('extremum of objects')
    return ip.extremum(n, el, k, ismin)


@reg('min')
def _min(ip, args, kw):
    return _mm(ip, args, kw, True)


@reg('max')
def _max(ip, args, kw):
    return _mm(ip, args, kw, False)


@reg('enumerate')
def _enum(ip, args, kw):
    n, el = ip.iterable(args[0])
    if el is None:
        raise Unsupported('enumerate set')
    st = args[1] if len(args) > 1 else kw.get('start', 0)
    return IterVal(n, lambda i: (add(i, st), el(i)))


@reg('zip')
def _zip(ip, args, kw):
    its = [ip.iterable(a) for a in args]
    if any(e is None for _, e in its):
        raise Unsupported('zip set')
    n = its[0][0]
    for m, _ in its[1:]:
        c = cmp('<=', n, m)
        n = ip.sel(c, n, m)
    return IterVal(n, lambda i: tuple(e(i) for _, e in its))


@reg('reversed')
def _rev(ip, args, kw):
    n, el = ip.iterable(args[0])
    if el is None:
        raise PyRaise('TypeError')
    return IterVal(n, lambda i: el(sub(sub(n, 1), i)))


def make_set(ip, v):
    if isinstance(v, Ref) and isinstance(ip.heap[v.id], SetVal):
        return ip.alloc(ip.heap[v.id])
    n, el = ip.iterable(v)
    if is_z3(n):
        return ip.alloc(SetVal(n, el))
    items = [el(k) for k in range(n)]
    a = const_array(items) if items else None
    return ip.alloc(SetVal(n, lambda k: items[k] if not is_z3(k)
                           else a.get((k,))))


@reg('set', 'frozenset')
def _set(ip, args, kw):
    if not args:
        return ip.alloc(SetVal(0, lambda k: 0))
    return make_set(ip, args[0])


@reg('list')
def _list(ip, args, kw):
    if not args:
        return ip.alloc(ListVal([]))
    v = args[0]
    c = ip.content(v)
    if isinstance(c, ListVal):
        return ip.alloc(ListVal(c.items))
    if isinstance(c, SetVal):
        return ip.alloc(ListVal(set_items(ip, c)))
    n, el = ip.iterable(v)
    if not is_z3(n):
        return ip.alloc(ListVal([el(k) for k in range(n)]))
    if ip.is_arr(v):
        a = ip.arr(v)
        if a.ndim == 1:
            return ip.alloc(ArrVal(a.shape, a.get, a.kind, True))
        raise Unsupported('list of rows')
    x = el(ip.fresh('lk', I))
    return ip.alloc(ArrVal((n,), lambda ix: el(ix[0]), kind_of(x)
                           if is_scalar(x) else 'obj', True))


@reg('tuple')
def _tuple(ip, args, kw):
    if not args:
        return ()
    n, el = ip.iterable(args[0])
    if el is None or is_z3(n):
        raise Unsupported('tuple of symbolic length')
    return tuple(el(k) for k in range(n))


@reg('dict')
def _dict(ip, args, kw):
    if args:
        raise Unsupported('dict()')
    return ip.alloc(DictVal(dict(kw)))


def scalar_of(ip, v):
    if ip.is_arr(v):
        a = ip.arr(v)
        if all(not is_z3(s) and s == 1 for s in a.shape):
            return a.get((0,) * a.ndim)
        raise PyRaise('TypeError', 'only size-1 arrays')
    if isinstance(v, str):
        raise Unsupported('number from string')
    if v is None:
        raise PyRaise('TypeError')
    return v


@reg('int', 'np.int16', 'np.int32', 'np.int64', 'np.int8', 'np.int_')
def _int(ip, args, kw):
    if not args:
        return 0
    return to_kind(num(scalar_of(ip, args[0])), 'int')


@reg('float', 'np.float64', 'np.float32')
def _float(ip, args, kw):
    if not args:
        return Fraction(0)
    if isinstance(args[0], str):
        raise Unsupported('float of string')
    return to_kind(num(scalar_of(ip, args[0])), 'real')


@reg('bool', 'np.bool_')
def _bool(ip, args, kw):
    if not args:
        return False
    return ip.to_cond(args[0])


def type_names(ip, v):
    c = ip.content(v)
    if isinstance(v, bool) or (is_z3(v) and kind_of(v) == 'bool'):
        return {'bool', 'int'}
    if is_scalar(v):
        k = kind_of(v)
        if k == 'int':
            return {'int'}
        return {'float', 'np.float64'}
    if isinstance(v, str):
        return {'str'}
    if isinstance(v, tuple):
        return {'tuple'}
    if isinstance(c, DictVal):
        return {'dict'}
    if isinstance(c, SetVal):
        return {'set'}
    if ip.is_list(v):
        return {'list'}
    if ip.is_arr(v):
        return {'np.ndarray'}
    if v is None:
        return {'NoneType'}
    return None


@reg('isinstance')
def _isinstance(ip, args, kw):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    c = ip.content(v)
    if isinstance(c, ObjVal):
        for x in ts:
            if isinstance(x, ClassVal):
                cv = c.cls
                if isinstance(cv, ClassVal) and cv.name == x.name and \
                        cv.mod == x.mod:
                    return True
        return False
    names = type_names(ip, v)
    if names is None:
        raise Unsupported('isinstance')
    for x in ts:
        if isinstance(x, Builtin) and x.name in names:
            return True
    return False


@reg('hasattr')
def _hasattr(ip, args, kw):
    ip.probing += 1
    try:
        ip.attr(args[0], args[1])
        return True
    except PyRaise as e:
        if e.name == 'AttributeError':
            return False
        raise
    finally:
        ip.probing -= 1


@reg('getattr')
def _getattr(ip, args, kw):
    ip.probing += len(args) > 2
    try:
        return ip.attr(args[0], args[1])
    except PyRaise as e:
        if e.name == 'AttributeError' and len(args) > 2:
            return args[2]
        raise
    finally:
        ip.probing -= len(args) > 2


@reg('any')
def _any(ip, args, kw):
    n, el, k = family(ip, args[0])
    return ip.quant_any(n, el)


@reg('all')
def _all(ip, args, kw):
    n, el, k = family(ip, args[0])
    return ip.quant_all(n, el)


@reg('print', 'time.time')
def _print(ip, args, kw):
    return None


@reg('str', 'repr')
def _str(ip, args, kw):
    if args and isinstance(args[0], (int, str)) and \
            not isinstance(args[0], bool):
        return str(args[0])
    return '<str>'


@reg('round', 'np.round', 'np.around', 'np.round_')
def _round(ip, args, kw):
    v = args[0]
    if len(args) > 1 or kw:
        raise Unsupported('round digits')
    if is_scalar(v) and kind_of(v) == 'int':
        return v
    raise Unsupported('round')


@reg('sorted')
def _sorted(ip, args, kw):
    n, el, k = family(ip, args[0])
    if is_z3(n) or kw:
        raise Unsupported('sorted')
    items = [el(i) for i in range(n)]
    if any(is_z3(x) for x in items):
        raise Unsupported('sorted of symbolic values')
    return ip.alloc(ListVal(sorted(items)))


@reg('type')
def _type(ip, args, kw):
    ts = type_names(ip, args[0])
    if ts:
        return Builtin(sorted(ts)[0])
    raise Unsupported('type')


@reg('pow', 'math.pow', 'np.power')
def _pow(ip, args, kw):
    return ip.binop('Pow', args[0], args[1])


@reg('math.sqrt', 'np.sqrt')
def _sqrt(ip, args, kw):
    v = args[0]
    if ip.is_arr(v):
        raise Unsupported('sqrt of array')
    return sqrt_of(ip, v)


SQRT = z3.Function('SQRT', R, R)


def sqrt_of(ip, v):
    v = to_kind(num(v), 'real')
    if not is_z3(v):
        p = int(round(float(v) ** .5))
        if Fraction(p * p) == v:
            return Fraction(p)
        v = Z(v)
    ip.oblige('sqrt-domain', cmp('>=', v, 0), 'sqrt')
    r = SQRT(v)
    ip.assume(z3.And(r >= 0, r * r == v))
    return r


COS = z3.Function('COS', R, R)
SIN = z3.Function('SIN', R, R)


@reg('math.cos', 'np.cos')
def _cos(ip, args, kw):
    return _unary(ip, args[0], COS)


@reg('math.sin', 'np.sin')
def _sin(ip, args, kw):
    return _unary(ip, args[0], SIN)


PI = z3.Real('PI')


@reg('np.deg2rad', 'np.radians', 'math.radians')
def _deg2rad(ip, args, kw):
    return _unary(ip, args[0], lambda x: x * PI / 180)


@reg('np.unique')
def _unique(ip, args, kw):
    n, el, k = family(ip, args[0])
    if kw or len(args) > 1 or is_z3(n):
        raise Unsupported('np.unique')
    v = [el(j) for j in range(n)]
    if k == 'obj' or any(is_z3(x) for x in v):
        raise Unsupported('np.unique of symbolic values')
    return ip.alloc(const_array(sorted(set(v)), k))


def _unary(ip, v, f):
    if ip.is_arr(v):
        a = deep_arr(ip, v)
        return ip.alloc(ArrVal(a.shape, lambda ix: f(Z(to_kind(
            a.get(ix), 'real'))), 'real'))
    return f(Z(to_kind(num(v), 'real')))


@reg('math.floor', 'np.floor')
def _floor(ip, args, kw):
    if ip.is_arr(args[0]):
        return _unary(ip, args[0], lambda x: z3.ToReal(Z(
            real_floor(x))))
    v = num(args[0])
    if kind_of(v) == 'int':
        return v
    if not is_z3(v):
        return v.__floor__()
    return real_floor(v)


@reg('math.ceil', 'np.ceil')
def _ceil(ip, args, kw):
    if ip.is_arr(args[0]):
        return _unary(ip, args[0], lambda x: z3.ToReal(Z(
            real_ceil(x))))
    v = num(args[0])
    if kind_of(v) == 'int':
        return v
    if not is_z3(v):
        return v.__ceil__()
    return real_ceil(v)


# ----------------------------------------------------------------- numpy
@reg('np.array', 'np.asarray', 'np.ascontiguousarray')
def _array(ip, args, kw):
    v = args[0]
    d = args[1] if len(args) > 1 else kw.get('dtype')
    if is_scalar(v):
        raise Unsupported('0-d array')
    a = deep_arr(ip, v)
    if d is None and not is_z3(a.shape[0]) and a.shape[0] == 0 and a.is_list:
        return ip.alloc(plain(a, 'real'))
    return ip.alloc(plain(a, dtype_kind(d, a.kind)))


def _filled(ip, args, kw, v, dflt='real'):
    sh = shape_of(ip, args[0] if args else kw['shape'])
    d = args[1] if len(args) > 1 else kw.get('dtype')
    k = dtype_kind(d, dflt)
    for s in sh:
        if is_z3(s):
            ip.oblige('shape', cmp('>=', s, 0), 'negative dimension')
    x = to_kind(v, k)
    return ip.alloc(ArrVal(sh, lambda ix: x, k))


@reg('np.zeros')
def _zeros(ip, args, kw):
    return _filled(ip, args, kw, 0)


@reg('np.ones')
def _ones(ip, args, kw):
    return _filled(ip, args, kw, 1)


@reg('np.full')
def _full(ip, args, kw):
    v = args[1] if len(args) > 1 else kw['fill_value']
    return _filled(ip, [args[0]], {'dtype': kw.get('dtype')}, v, kind_of(v))


@reg('np.zeros_like', 'np.ones_like')
def _zl(ip, args, kw):
    raise Unsupported('zeros_like')


@reg('np.empty')
def _empty(ip, args, kw):
    sh = shape_of(ip, args[0] if args else kw['shape'])
    k = dtype_kind(args[1] if len(args) > 1 else kw.get('dtype'))
    f = ip.fresh_fn('empty', *([I] * len(sh) + [sort_of_kind(k)]))
    return ip.alloc(ArrVal(sh, lambda ix: simp(f(*[Z(x) for x in ix])), k))


@reg('np.copy', 'copy.copy')
def _copy(ip, args, kw):
    v = args[0]
    c = ip.content(v)
    if isinstance(c, ListVal):
        return ip.alloc(plain(deep_arr(ip, v)))
    if isinstance(c, (ArrVal,)):
        return ip.alloc(plain(deep_arr(ip, v)))
    if isinstance(v, (View, ElemRef, ArrVal)):
        return ip.alloc(plain(ip.arr(v)))
    raise Unsupported('copy')


@reg('copy.deepcopy', 'deepcopy')
def _deepcopy(ip, args, kw):
    return deep(ip, args[0], {})


def deep(ip, v, memo):
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = ip.heap[v.id]
        if isinstance(c, (ArrVal, SetVal)):
            r = ip.alloc(c)
        elif isinstance(c, ListVal):
            r = ip.alloc(ListVal([deep(ip, x, memo) for x in c.items]))
        elif isinstance(c, DictVal):
            r = ip.alloc(DictVal({k: deep(ip, x, memo)
                                  for k, x in c.items.items()}, c.fn))
        else:
            r = ip.alloc(ObjVal(c.cls, {k: deep(ip, x, memo)
                                        for k, x in c.attrs.items()}))
        memo[v.id] = r
        return r
    if isinstance(v, (View, ElemRef)):
        return ip.alloc(ip.arr(v))
    if isinstance(v, tuple):
        return tuple(deep(ip, x, memo) for x in v)
    return v


@reg('np.arange')
def _arange(ip, args, kw):
    d = kw.get('dtype')
    a = [num(x) for x in args]
    if any(kind_of(x) == 'real' for x in a):
        raise Unsupported('float arange')
    r = _range(ip, a, {})
    k = dtype_kind(d, 'int')
    return ip.alloc(ArrVal((r.n,), lambda ix: to_kind(
        add(r.lo, mul(ix[0], r.step)), k), k))


@reg('np.linspace')
def _linspace(ip, args, kw):
    lo, hi = args[0], args[1]
    n = args[2] if len(args) > 2 else kw.get('num', 50)
    if kw.get('endpoint', True) is not True:
        raise Unsupported('linspace endpoint')

    def g(ix):
        if not is_z3(n) and n == 1:
            return to_kind(lo, 'real')
        return add(lo, truediv(mul(sub(hi, lo), ix[0]), sub(n, 1)))
    d = kw.get('dtype')
    k = dtype_kind(d, 'real')
    return ip.alloc(ArrVal((dim(n),), lambda ix: to_kind(g(ix), k), k))


def axis_arg(args, kw, pos=1):
    ax = args[pos] if len(args) > pos else kw.get('axis')
    if is_z3(ax):
        raise Unsupported('axis')
    return ax


@reg('np.sum')
def _npsum(ip, args, kw):
    v = args[0]
    if is_scalar(v):
        return num(v)
    a = as_arr(ip, v)
    k = 'int' if a.kind == 'bool' else a.kind
    return red(ip, a, axis_arg(args, kw),
               lambda n, e: ip.reduce_sum(n, e, k), k)


@reg('np.mean', 'np.average')
def _mean(ip, args, kw):
    a = as_arr(ip, args[0])
    if axis_arg(args, kw) is not None or a.ndim != 1 or 'weights' in kw:
        raise Unsupported('mean')
    s = ip.reduce_sum(a.shape[0], lambda k: to_kind(
        a.get((k,)), 'real'), 'real')
    ip.oblige('nonempty', cmp('!=', a.shape[0], 0), 'mean')
    return truediv(s, a.shape[0])


@reg('np.prod', 'np.product')
def _prod(ip, args, kw):
    a = as_arr(ip, args[0])
    if a.ndim != 1 or is_z3(a.shape[0]):
        raise Unsupported('prod')
    r = 1
    for k in range(a.shape[0]):
        r = mul(r, a.get((k,)))
    return r


@reg('np.all')
def _npall(ip, args, kw):
    if is_scalar(args[0]):
        return truth(args[0])
    return red(ip, as_arr(ip, args[0]), axis_arg(args, kw),
               ip.quant_all, 'bool')


@reg('np.any')
def _npany(ip, args, kw):
    if is_scalar(args[0]):
        return truth(args[0])
    return red(ip, as_arr(ip, args[0]), axis_arg(args, kw),
               ip.quant_any, 'bool')


def _npext(ip, args, kw, ismin):
    if is_scalar(args[0]):
        return args[0]
    a = as_arr(ip, args[0])
    ax = axis_arg(args, kw)
    if ax is not None and a.ndim > 1:
        r = axis_reduce(ip, a, ax, lambda n, e: ip.extremum(
            n, e, a.kind, ismin))
        sh, g = r
        n = a.shape[int(ax)]
        if is_z3(n):
            raise Unsupported('extremum over symbolic axis')
        return ip.alloc(ArrVal(sh, g, a.kind))
    if a.ndim > 1:
        if any(is_z3(s) for s in a.shape):
            raise Unsupported('extremum of matrix')
    return red(ip, a, None, lambda n, e: ip.extremum(n, e, a.kind, ismin),
               a.kind)


@reg('np.min', 'np.amin')
def _npmin(ip, args, kw):
    return _npext(ip, args, kw, True)


@reg('np.max', 'np.amax')
def _npmax(ip, args, kw):
    return _npext(ip, args, kw, False)


def _argext(ip, args, kw, ismin):
    a = as_arr(ip, args[0])
    if a.ndim != 1 or axis_arg(args, kw) not in (None, 0):
        raise Unsupported('argmin')
    return ip.arg_extremum(a.shape[0], lambda k: a.get((k,)), a.kind, ismin)


@reg('np.argmin')
def _argmin(ip, args, kw):
    return _argext(ip, args, kw, True)


@reg('np.argmax')
def _argmax(ip, args, kw):
    return _argext(ip, args, kw, False)


def _npmm(ip, args, ismin):
    k = join_kind(ip.akind(args[0]), ip.akind(args[1]))
    return ip.elementwise(minv if ismin else maxv, args[0], args[1], k)


@reg('np.minimum')
def _minimum(ip, args, kw):
    return _npmm(ip, args, True)


@reg('np.maximum')
def _maximum(ip, args, kw):
    return _npmm(ip, args, False)


@reg('np.flip')
def _flip(ip, args, kw):
    a = as_arr(ip, args[0])
    ax = axis_arg(args, kw)
    axes = range(a.ndim) if ax is None else [int(ax) % a.ndim]
    axes = set(axes)
    n = a.shape

    def fl(ix):
        return tuple(sub(sub(n[d], 1), x) if d in axes else x
                     for d, x in enumerate(ix))
    v = args[0]
    if isinstance(v, Ref) and not ip.is_list(v):
        return View(v, a.shape, fl)
    if isinstance(v, View):
        return View(v.ref, a.shape, lambda ix, m=v.imap: m(fl(ix)))
    return ip.alloc(ArrVal(a.shape, lambda ix: a.get(fl(ix)), a.kind))


@reg('np.flipud')
def _flipud(ip, args, kw):
    return _flip(ip, [args[0], 0], {})


@reg('np.fliplr')
def _fliplr(ip, args, kw):
    return _flip(ip, [args[0], 1], {})


def _parts(ip, v):
    n, el = ip.iterable(v)
    if is_z3(n):
        raise Unsupported('stack of symbolic count')
    out = []
    for k in range(n):
        x = el(k)
        if is_scalar(x):
            x = const_array([x])
            out.append(x)
        else:
            out.append(plain(as_arr(ip, x)))
    # an empty python list is a float array for numpy
    return out


def _catkind(parts, raw):
    k = parts[0].kind
    for p in parts[1:]:
        k = join_kind(k, p.kind)
    return k


@reg('np.hstack', 'np.concatenate')
def _hstack(ip, args, kw, axis=None):
    parts = _parts(ip, args[0])
    ax = axis_arg(args, kw)
    if all(p.ndim == 1 for p in parts):
        return ip.alloc(plain(ip.concat(parts)))
    if all(p.ndim == 2 for p in parts) and ax == 0:
        return _vst(ip, parts)
    raise Unsupported('hstack of matrices')


@reg('np.vstack')
def _vstack(ip, args, kw):
    return _vst(ip, _parts(ip, args[0]))


def _vst(ip, parts):
    ps = []
    for p in parts:
        if p.ndim == 1:
            ps.append(ArrVal((1,) + p.shape, lambda ix, p=p: p.get(
                tuple(ix[1:])), p.kind))
        else:
            ps.append(p)
    w = ps[0].shape[1]
    for p in ps[1:]:
        c = cmp('==', p.shape[1], w)
        if c is False:
            raise PyRaise('ValueError', 'vstack')
        if c is not True:
            ip.oblige('shape', c, 'vstack')
    return ip.alloc(plain(ip.concat(ps)))


@reg('np.delete')
def _delete(ip, args, kw):
    a = as_arr(ip, args[0])
    i = args[1]
    ax = kw.get('axis', args[2] if len(args) > 2 else None)
    if set(kw) - {'axis'} or not is_scalar(i) or kind_of(i) != 'int':
        raise Unsupported('np.delete')
    if ax is None:
        if a.ndim != 1:
            raise Unsupported('np.delete without axis')
        ax = 0
    ax = int(ax) % a.ndim
    i = ip.norm_index(i, a.shape[ax], 'np.delete')
    shape = list(a.shape)
    shape[ax] = sub(shape[ax], 1)

    def get(ix):
        x = ix[ax]
        lo = a.get(tuple(ix))
        hi = a.get(tuple(ix[:ax]) + (add(x, 1),) + tuple(ix[ax + 1:]))
        return ite(cmp('<', x, i), lo, hi)
    return ip.alloc(ArrVal(shape, get, a.kind))


@reg('np.append')
def _append(ip, args, kw):
    if kw or len(args) > 2:
        raise Unsupported('append axis')
    parts = []
    for x in args:
        if is_scalar(x):
            parts.append(const_array([x]))
        else:
            a = as_arr(ip, x)
            if a.ndim != 1:
                raise Unsupported('append matrix')
            parts.append(a)
    return ip.alloc(plain(ip.concat(parts)))


@reg('np.size')
def _size(ip, args, kw):
    if is_scalar(args[0]):
        return 1
    return as_arr(ip, args[0]).size()


@reg('np.shape')
def _shape(ip, args, kw):
    return tuple(as_arr(ip, args[0]).shape)


@reg('np.isclose')
def _isclose(ip, args, kw):
    rtol = kw.get('rtol', Fraction(1, 10 ** 5))
    atol = kw.get('atol', Fraction(1, 10 ** 8))

    def f(x, y):
        return cmp('<=', absv(sub(x, y)), add(atol, mul(rtol, absv(y))))
    return ip.elementwise(f, args[0], args[1], 'bool')


@reg('np.allclose')
def _allclose(ip, args, kw):
    r = _isclose(ip, args, kw)
    return _npall(ip, [r], {})


@reg('np.array_equal')
def _array_equal(ip, args, kw):
    a, b = as_arr(ip, args[0]), as_arr(ip, args[1])
    if a.ndim != b.ndim:
        return False
    if a.ndim == 1:
        return ip.seq_equal(a, b)
    if a.ndim == 2:
        c = And(cmp('==', a.shape[0], b.shape[0]),
                cmp('==', a.shape[1], b.shape[1]))
        e = ip.quant_all(a.shape[0], lambda i: ip.quant_all(
            a.shape[1], lambda j: cmp('==', a.get((i, j)), b.get((i, j)))))
        return And(c, e)
    raise Unsupported('array_equal')


@reg('np.logical_and')
def _land(ip, args, kw):
    return ip.elementwise(lambda x, y: And(truth(x), truth(y)), args[0],
                          args[1], 'bool')


@reg('np.logical_or')
def _lor(ip, args, kw):
    return ip.elementwise(lambda x, y: Or(truth(x), truth(y)), args[0],
                          args[1], 'bool')


@reg('np.logical_not')
def _lnot(ip, args, kw):
    a = as_arr(ip, args[0])
    return ip.alloc(ArrVal(a.shape, lambda ix: Not(truth(a.get(ix))),
                           'bool'))


@reg('np.dot', 'np.matmul', 'np.inner')
def _dot(ip, args, kw):
    a, b = as_arr(ip, args[0]), as_arr(ip, args[1])
    k = join_kind(a.kind, b.kind)
    if a.ndim == 0 or b.ndim == 0:
        return ip.binop('Mult', args[0], args[1])
    n = a.shape[-1]
    c = cmp('==', n, b.shape[0])
    if c is False:
        raise PyRaise('ValueError', 'dot shape')
    if c is not True:
        ip.oblige('shape', c, 'dot')
    if a.ndim == 1 and b.ndim == 1:
        return ip.reduce_sum(n, lambda i: mul(a.get((i,)), b.get((i,))), k)
    if a.ndim == 2 and b.ndim == 1:
        return ip.alloc(ArrVal((a.shape[0],), lambda ix: ip.reduce_sum(
            n, lambda i: mul(a.get((ix[0], i)), b.get((i,))), k), k))
    if a.ndim == 1 and b.ndim == 2:
        return ip.alloc(ArrVal((b.shape[1],), lambda ix: ip.reduce_sum(
            n, lambda i: mul(a.get((i,)), b.get((i, ix[0]))), k), k))
    if a.ndim == 2 and b.ndim == 2:
        return ip.alloc(ArrVal(
            (a.shape[0], b.shape[1]), lambda ix: ip.reduce_sum(
                n, lambda i: mul(a.get((ix[0], i)), b.get((i, ix[1]))), k),
            k))
    raise Unsupported('dot')


@reg('np.linalg.norm')
def _norm(ip, args, kw):
    a = as_arr(ip, args[0])
    if a.ndim != 1 or kw or len(args) > 1:
        raise Unsupported('norm')
    s = ip.reduce_sum(a.shape[0], lambda i: to_kind(
        mul(a.get((i,)), a.get((i,))), 'real'), 'real')
    return sqrt_of(ip, s)


@reg('np.matlib.repmat', 'np.tile')
def _repmat(ip, args, kw):
    a = as_arr(ip, args[0])
    if len(args) == 2:
        reps = args[1] if isinstance(args[1], tuple) else (args[1],)
        if len(reps) == 1 and a.ndim == 1:
            n = a.shape[0]
            return ip.alloc(ArrVal((mul(n, reps[0]),), lambda ix: a.get(
                (mod(ix[0], n),)), a.kind))
        if len(reps) != 2:
            raise Unsupported('tile')
        args = [args[0], reps[0], reps[1]]
    m, n = args[1], args[2]
    if a.ndim == 1:
        a = ArrVal((1,) + a.shape, lambda ix, a=a: a.get((ix[1],)), a.kind)
    r, c = a.shape

    def md(x, s, rep):
        if not is_z3(rep) and rep == 1:
            return x
        if not is_z3(s) and s == 1:
            return 0
        return mod(x, s)
    return ip.alloc(ArrVal((mul(r, m), mul(c, n)), lambda ix: a.get(
        (md(ix[0], r, m), md(ix[1], c, n))), a.kind))


@reg('np.transpose')
def _transpose(ip, args, kw):
    a = as_arr(ip, args[0])
    if a.ndim == 2:
        return ip.alloc(ArrVal(a.shape[::-1], lambda ix: a.get(
            (ix[1], ix[0])), a.kind))
    return args[0]


@reg('np.where', 'np.nonzero')
def _where(ip, args, kw):
    if len(args) == 3:
        c = as_arr(ip, args[0])
        x, y = args[1], args[2]
        k = join_kind(ip.akind(x), ip.akind(y))
        r = ip.elementwise(lambda p, q: ite(truth(p), to_kind(q, k), 0),
                           args[0], x, k)
        ra, ca = ip.arr(r), c
        if not is_scalar(y):
            ya = as_arr(ip, y)
            yg = lambda ix: ya.get(ix[len(ix) - ya.ndim:])
        else:
            yg = lambda ix: y
        xa = as_arr(ip, x) if not is_scalar(x) else None
        xg = (lambda ix: xa.get(ix[len(ix) - xa.ndim:])) if xa else (
            lambda ix: x)
        return ip.alloc(ArrVal(c.shape, lambda ix: ite(
            truth(c.get(ix)), to_kind(xg(ix), k), to_kind(yg(ix), k)), k))
    a = as_arr(ip, args[0])
    if a.ndim != 1:
        raise Unsupported('where ndim')
    idx = ArrVal(a.shape, lambda ix: ix[0], 'int')
    return (ip.alloc(ip.filter_arr(idx, ArrVal(
        a.shape, lambda ix: truth(a.get(ix)), 'bool'))),)


@reg('np.cumsum')
def _cumsum(ip, args, kw):
    a = as_arr(ip, args[0])
    if a.ndim != 1:
        raise Unsupported('cumsum')
    k = 'int' if a.kind == 'bool' else a.kind
    b = ip.fresh('cs', I)
    body = num(a.get((b,)))
    return ip.alloc(ArrVal(a.shape, lambda ix: SUMS.make(
        b, body, 0, add(ix[0], 1)), k))


@reg('np.count_nonzero')
def _cnz(ip, args, kw):
    a = as_arr(ip, args[0])
    return red(ip, a, axis_arg(args, kw), lambda n, e: ip.reduce_sum(
        n, lambda k: (lambda t: t if a.ndim > 1 and not is_scalar(t) else
                      num(truth(t)))(e(k)), 'int'), 'int') \
        if a.ndim == 1 else _unsup('count_nonzero')


def _unsup(m):
    raise Unsupported(m)


@reg('np.isin', 'np.in1d')
def _isin(ip, args, kw):
    a = as_arr(ip, args[0])
    return ip.alloc(ArrVal(a.shape, lambda ix: ip.contains(
        args[1], a.get(ix)), 'bool'))


@reg('np.ravel')
def _npravel(ip, args, kw):
    return call_method(ip, args[0], 'ravel', [], {})


@reg('np.reshape')
def _npreshape(ip, args, kw):
    return call_method(ip, args[0], 'reshape', args[1:], kw)


@reg('np.expand_dims')
def _expd(ip, args, kw):
    a = as_arr(ip, args[0])
    ax = int(axis_arg(args, kw)) % (a.ndim + 1)
    return ip.alloc(ArrVal(
        a.shape[:ax] + (1,) + a.shape[ax:],
        lambda ix: a.get(tuple(ix[:ax]) + tuple(ix[ax + 1:])), a.kind))


# --------------------------------------------------------------- methods
def call_method(ip, obj, name, args, kw):
    c = ip.content(obj)
    if isinstance(obj, str):
        if all(isinstance(a, str) for a in args) and name in (
                'startswith', 'endswith', 'lower', 'upper', 'strip'):
            return getattr(obj, name)(*args)
        return '<str>'
    if isinstance(c, SetVal):
        return set_method(ip, obj, c, name, args)
    if isinstance(c, DictVal):
        return dict_method(ip, obj, c, name, args)
    if isinstance(obj, tuple):
        if name == 'count':
            return ip.reduce_sum(len(obj), lambda k: num(
                cmp('==', obj[k], args[0])), 'int')
        if name == 'index':
            return first_index(ip, len(obj), lambda k: obj[k], args[0])
        raise Unsupported('tuple method')
    if ip.is_list(obj):
        return list_method(ip, obj, name, args, kw)
    if ip.is_arr(obj):
        return array_method(ip, obj, name, args, kw)
    if is_scalar(obj):
        if name == 'astype':
            return to_kind(obj, dtype_kind(args[0]))
        if name == 'item':
            return obj
    raise Unsupported('method %s' % name)


def set_method(ip, ref, c, name, args):
    if name in ('discard', 'remove'):
        if name == 'remove':
            m = ip.set_member(c, args[0])
            if not ip.branch(m):
                raise PyRaise('KeyError')
        ip.heap[ref.id] = SetVal(c.n, c.gen, c.excl + (args[0],))
        return None
    if name == 'add':
        if is_z3(num(c.n)) or c.excl:
            raise Unsupported('set.add')
        items = [c.gen(k) for k in range(c.n)] + [args[0]]
        a = const_array(items)
        ip.heap[ref.id] = SetVal(len(items), lambda k: items[k]
                                 if not is_z3(k) else a.get((k,)))
        return None
    raise Unsupported('set.%s' % name)


def dict_method(ip, ref, c, name, args):
    if name == 'get' and c.fn is None:
        k = args[0]
        d = args[1] if len(args) > 1 else None
        if not is_z3(k):
            return c.items.get(norm_const(k), d)
        raise Unsupported('dict.get symbolic')
    if c.fn is not None:
        raise Unsupported('dict.%s' % name)
    if name == 'keys':
        return tuple(c.items)
    if name == 'values':
        return tuple(c.items.values())
    if name == 'items':
        return tuple((k, v) for k, v in c.items.items())
    if name == 'copy':
        return ip.alloc(DictVal(c.items))
    raise Unsupported('dict.%s' % name)


def first_index(ip, n, el, x):
    if not is_z3(n) and n <= 64:
        for k in range(n):
            e = cmp('==', el(k), x)
            if e is True:
                return k
            if e is False:
                continue
            if ip.branch(e):
                return k
        raise PyRaise('ValueError', 'index')
    k = ip.fresh('ix', I)
    ex = ip.exists_term(k, And(cmp('>=', k, 0), cmp('<', k, n),
                               cmp('==', el(k), x)))
    ip.oblige('index-present', ex, 'list.index')
    w = ip.fresh('ixw', I)
    ip.assume(And(cmp('>=', w, 0), cmp('<', w, n), cmp('==', el(w), x)))
    j = ip.fresh('ixj', I)
    ip.assume(ip.forall_term(j, Implies(
        And(cmp('>=', j, 0), cmp('<', j, w)), cmp('!=', el(j), x))))
    return w


def list_method(ip, obj, name, args, kw):
    c = ip.content(obj)
    if name == 'append':
        x = args[0]
        if isinstance(c, ListVal):
            ip.heap[obj.id] = ListVal(c.items + (x,))
            return None
        if not isinstance(obj, Ref):
            raise Unsupported('append to element list')
        a = c
        n = a.shape[0]
        nv = ip.arr(x) if ip.is_arr(x) else x
        k = a.kind
        if is_scalar(nv) and k != 'obj':
            k = join_kind(k, kind_of(nv)) if not (
                not is_z3(n) and n == 0) else kind_of(nv)
        else:
            k = 'obj'
        s = ip.store_list(ArrVal((add(n, 1),), a.get, k, True), n, nv)
        ip.heap[obj.id] = ArrVal((add(n, 1),), s.get, k, True, (a, n, nv))
        return None
    if name == 'count':
        if isinstance(c, ListVal):
            return ip.reduce_sum(len(c.items), lambda k: num(
                cmp('==', c.items[k], args[0])), 'int')
        a = ip.arr(obj)
        return ip.reduce_sum(a.shape[0], lambda k: num(
            cmp('==', a.get((k,)), args[0])), 'int')
    if name == 'index':
        n, el = ip.iterable(obj)
        return first_index(ip, n, el, args[0])
    if name == 'copy':
        return ip.alloc(c if c is not None else ip.arr(obj))
    if name == 'extend':
        n, el = ip.iterable(args[0])
        if isinstance(c, ListVal) and not is_z3(n):
            ip.heap[obj.id] = ListVal(c.items + tuple(
                el(k) for k in range(n)))
            return None
        ip.heap[obj.id] = ip.concat([ip.arr(obj), ip.arr(args[0])], True)
        return None
    if isinstance(c, ListVal):
        items = list(c.items)
        if name == 'pop':
            i = num(args[0]) if args else -1
            if is_z3(i):
                raise Unsupported('pop symbolic')
            try:
                x = items.pop(i)
            except IndexError:
                raise PyRaise('IndexError')
            ip.heap[obj.id] = ListVal(items)
            return x
        if name == 'insert' and not is_z3(num(args[0])):
            items.insert(num(args[0]), args[1])
            ip.heap[obj.id] = ListVal(items)
            return None
        if name == 'reverse':
            ip.heap[obj.id] = ListVal(items[::-1])
            return None
        if name == 'clear':
            ip.heap[obj.id] = ListVal([])
            return None
        if name == 'remove':
            i = first_index(ip, len(items), lambda k: items[k], args[0])
            del items[i]
            ip.heap[obj.id] = ListVal(items)
            return None
        if name == 'sort' and not any(is_z3(x) or not is_scalar(x)
                                      for x in items) and not kw:
            ip.heap[obj.id] = ListVal(sorted(items))
            return None
    if name in ('size', 'shape', 'astype', 'all', 'any', 'sum', 'tolist'):
        raise PyRaise('AttributeError', name)
    raise Unsupported('list.%s' % name)


def array_method(ip, obj, name, args, kw):
    a = ip.arr(obj)
    if name in ('all', 'any', 'sum', 'min', 'max', 'argmin', 'argmax',
                'mean', 'dot', 'transpose', 'prod', 'cumsum', 'round'):
        return TABLE['np.' + name](ip, [obj] + list(args), kw)
    if name == 'copy':
        return ip.alloc(plain(a))
    if name == 'astype':
        return ip.alloc(plain(a, dtype_kind(args[0])))
    if name == 'tolist':
        if a.ndim != 1:
            raise Unsupported('tolist')
        if not is_z3(a.shape[0]):
            return ip.alloc(ListVal([a.get((k,))
                                     for k in range(a.shape[0])]))
        return ip.alloc(ArrVal(a.shape, a.get, a.kind, True))
    if name == 'item':
        if all(not is_z3(s) and s == 1 for s in a.shape):
            return a.get((0,) * a.ndim)
        raise Unsupported('item')
    if name in ('flatten', 'ravel'):
        return reshape(ip, a, [a.size()])
    if name == 'reshape':
        sh = args[0] if len(args) == 1 and isinstance(args[0], tuple) \
            else tuple(args)
        return reshape(ip, a, [num(s) for s in sh])
    if name == 'fill':
        if not isinstance(obj, Ref):
            raise Unsupported('fill view')
        x = to_kind(args[0], a.kind)
        ip.heap[obj.id] = ArrVal(a.shape, lambda ix: x, a.kind)
        return None
    raise Unsupported('array.%s' % name)


def reshape(ip, a, sh):
    if any(not is_z3(s) and s == -1 for s in sh):
        k = [i for i, s in enumerate(sh) if not is_z3(s) and s == -1]
        if len(k) != 1:
            raise Unsupported('reshape')
        r = 1
        for i, s in enumerate(sh):
            if i != k[0]:
                r = mul(r, s)
        q = a.size() if not is_z3(r) and r == 1 else floordiv(a.size(), r)
        sh = [q if i == k[0] else s for i, s in enumerate(sh)]
    tot = 1
    for s in sh:
        tot = mul(tot, s)
    c = cmp('==', tot, a.size())
    if c is False:
        raise PyRaise('ValueError', 'reshape')
    if c is not True:
        ip.oblige('shape', c, 'reshape')
    src = list(a.shape)
    # drop unit dimensions on both sides
    def flat(ix, shp):
        r = 0
        for x, s in zip(ix, shp):
            if not is_z3(s) and s == 1:
                continue
            r = add(mul(r, s), x) if not (not is_z3(r) and r == 0) else x
        return r

    def unflat(f):
        live = [d for d, s in enumerate(src) if is_z3(s) or s != 1]
        out = [0] * len(src)
        for q, d in enumerate(reversed(live)):
            if q == len(live) - 1:
                out[d] = f
            else:
                out[d] = mod(f, src[d])
                f = floordiv(f, src[d])
        return tuple(out)
    return ip.alloc(ArrVal(sh, lambda ix: a.get(unflat(flat(ix, sh))),
                           a.kind))


# ------------------------------------------------------- spec vocabulary
def quantified(ip, lo, hi, f, what):
    lo, hi = num(lo), num(hi)
    if not is_z3(lo) and not is_z3(hi) and hi - lo <= 16:
        return None, [ip.call(f, [k], {}) for k in range(lo, hi)]
    k = ip.fresh('q', I)
    rng = And(cmp('<=', lo, k), cmp('<', k, hi))
    if rng is False:
        return None, []
    mark = ip.ctr
    v = ip.eval_pure(k, rng, lambda: ip.call(f, [k], {}))
    if v is None:
        return None, []
    if is_z3(v):
        for x in free_consts(v):
            nm = x.decl().name()
            if '!' in nm and not x.eq(k):
                try:
                    t = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if t > mark:
                    raise Unsupported('witness inside a quantifier')
    return k, (rng, v)


def window(ip, args):
    "range of a quantifier over a slice of bounded length: (lo, length)"
    lo, hi = num(args[0]), num(args[1])
    d = sub(hi, lo)
    if not is_z3(d):
        return None
    stack, ite_in = [d], False
    while stack:
        e = stack.pop()
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            ite_in = True
            break
        stack.extend(e.children())
    if not ite_in:
        return None
    for n in (1, 2, 4, 6):
        if ip.entails(cmp('<=', d, n)):
            return Z(lo), n
    return None


@reg('spec.forall')
def _forall(ip, args, kw):
    k, r = quantified(ip, *args, 'forall')
    if k is None:
        return simpb(And(*[truth(x) for x in r]))
    w = window(ip, args)
    if w is not None and is_z3(truth(r[1])):
        return simpb(And(*[z3.substitute(
            Z(Implies(r[0], truth(r[1]))), (k, Z(simp(w[0] + j))))
            for j in range(w[1])]))
    return ip.forall_term(k, Implies(r[0], truth(r[1])))


@reg('spec.exists')
def _exists(ip, args, kw):
    k, r = quantified(ip, *args, 'exists')
    if k is None:
        return simpb(Or(*[truth(x) for x in r]))
    w = window(ip, args)
    if w is not None and is_z3(truth(r[1])):
        return simpb(Or(*[z3.substitute(
            Z(And(r[0], truth(r[1]))), (k, Z(simp(w[0] + j))))
            for j in range(w[1])]))
    return ip.exists_term(k, And(r[0], truth(r[1])))


def simpb(c):
    return simp(c) if is_z3(c) else c


@reg('spec.total')
def _total(ip, args, kw):
    k, r = quantified(ip, *args, 'total')
    if k is None:
        t = 0
        for x in r:
            t = add(t, x)
        return t
    v = num(r[1])
    lo, hi = num(args[0]), num(args[1])
    return SUMS.make(k, v, lo, hi)


@reg('spec.count')
def _count(ip, args, kw):
    k, r = quantified(ip, *args, 'count')
    if k is None:
        t = 0
        for x in r:
            t = add(t, num(truth(x)))
        return t
    v = num(truth(r[1]))
    return SUMS.make(k, v, num(args[0]), num(args[1]))


@reg('spec.implies')
def _implies(ip, args, kw):
    return simpb(Implies(ip.to_cond(args[0]), ip.to_cond(args[1])))


@reg('spec.iff')
def _iff(ip, args, kw):
    a, b = ip.to_cond(args[0]), ip.to_cond(args[1])
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return Z(a) == Z(b)


@reg('spec.ite')
def _ite(ip, args, kw):
    return ite(truth(args[0]), args[1], args[2])


@reg('spec.real')
def _real(ip, args, kw):
    return to_kind(num(args[0]), 'real')


@reg('spec.near')
def _near(ip, args, kw):
    return cmp('==', args[0], args[1])


# ------------------------------------------------- functions outside the repo
def opaque_value(ip, name, arg, n):
    """result of an external function about which only determinism is
    assumed: n unknown reals, the same ones for the same argument"""
    tab = ip.__dict__.setdefault('opaque_calls', [])
    if ip.is_arr(arg):
        content = ip.arr(arg)
    else:
        content = ip.content(arg)
    for nm, c, v in tab:
        if nm == name and c is content:
            return ip.alloc(v)
    f = ip.fresh_fn('ext_' + name, I, z3.RealSort())
    v = ArrVal([n], lambda ix: f(Z(ix[0])), 'real')
    tab.append((name, content, v))
    return ip.alloc(v)


def opaque(name, n):
    "handler for Contract(externals=...)"
    def h(ip, args, kw):
        return opaque_value(ip, name, args[0], n)
    return h


@reg('spec.opaque')
def _spec_opaque(ip, args, kw):
    return opaque_value(ip, args[0], args[1], args[2])

"""Symbolic value domain of the verifier.

Scalars are Python constants (int, bool, Fraction, str, None, ...) or z3 terms
of sort Int / Real / Bool.  Arrays and lists are *functional snapshots*
(shape + element function); mutable ones live in heap cells and are reached
through Ref / View, so aliasing through basic slices is exact.
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    "construct outside the verified subset (never a violation)"


class NeedFork(Exception):
    "a branch was requested while evaluating a guarded sub-expression"


class PathEnd(Exception):
    "this path is infeasible"


class PyRaise(Exception):
    "the program raises an exception on this path"
    def __init__(self, name, info=''):
        super().__init__(name)
        self.name = name
        self.info = info


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PoisonRead(Exception):
    def __init__(self, name):
        self.name = name


class Poison:
    "unknown value of a name assigned in a loop body"
    def __init__(self, name):
        self.name = name


class MaybeUndef:
    "value defined only if cond holds (name bound inside a loop)"
    def __init__(self, value, cond, name):
        self.value, self.cond, self.name = value, cond, name


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_scalar(v):
    return isinstance(v, (int, bool, Fraction, float)) or (
        is_z3(v) and v.sort() in (I, R, B))


def norm_const(v):
    "python / numpy constant -> domain constant"
    if isinstance(v, bool) or v is None or isinstance(v, (str, int, Fraction)):
        return v
    if isinstance(v, float):
        return float_const(v)
    try:
        import numpy as np
        if isinstance(v, np.bool_):
            return bool(v)
        if isinstance(v, np.integer):
            return int(v)
        if isinstance(v, np.floating):
            return float_const(float(v))
    except ImportError:
        pass
    return v


def float_const(f):
    "decimal reading of a float literal (machine arithmetic treated as exact)"
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('nan/inf')
    fr = Fraction(repr(f))
    return fr


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (Fraction, float)):
        return 'real'
    if is_z3(v):
        s = v.sort()
        return {I: 'int', R: 'real', B: 'bool'}.get(s, 'obj')
    return 'obj'


def sort_of_kind(k):
    return {'int': I, 'real': R, 'bool': B}[k]


def join_kind(a, b):
    order = {'bool': 0, 'int': 1, 'real': 2}
    if a not in order or b not in order:
        return 'obj'
    return a if order[a] >= order[b] else b


def Z(v):
    "scalar -> z3 term"
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(float_const(v))
    raise Unsupported('not a scalar: %r' % (type(v),))


def num(v):
    "scalar -> arithmetic python const or z3 Int/Real (bool coerced to 0/1)"
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return float_const(v)
    if isinstance(v, (int, Fraction)):
        return v
    if is_z3(v):
        if v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() in (I, R):
            return v
    raise Unsupported('not a number: %r' % (type(v),))


def to_kind(v, k):
    if k == 'obj':
        return v
    if k == 'bool':
        return truth(v)
    v = num(v)
    if k == 'int':
        if is_z3(v):
            if v.sort() == R:
                # C truncation toward zero
                fl = z3.ToInt(v)
                return z3.If(v >= 0, fl, -z3.ToInt(-v))
            return v
        if isinstance(v, Fraction):
            return int(v)
        return v
    if is_z3(v):
        return v if v.sort() == R else z3.ToReal(v)
    return Fraction(v)


def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fraction)):
        return v != 0
    if v is None:
        return False
    if isinstance(v, str):
        return len(v) > 0
    if is_z3(v):
        if v.sort() == B:
            return v
        return simp(v != 0)
    raise Unsupported('truth of %r' % (type(v),))


def simp(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t) and t.sort() == R:
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


def And(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def _fold2(a, b, f):
    return f(a, b)


def add(a, b):
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return a + b
    if not is_z3(a) and a == 0:
        return b if not isinstance(a, Fraction) else to_kind(b, 'real')
    if not is_z3(b) and b == 0:
        return a if not isinstance(b, Fraction) else to_kind(a, 'real')
    a, b = coerce2(a, b)
    return simp(a + b)


def sub(a, b):
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return a - b
    a, b = coerce2(a, b)
    return simp(a - b)


def mul(a, b):
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return a * b
    a, b = coerce2(a, b)
    return simp(a * b)


def neg(a):
    a = num(a)
    if not is_z3(a):
        return -a
    return simp(-a)


def coerce2(a, b):
    ka, kb = kind_of(a), kind_of(b)
    k = join_kind(ka, kb)
    if k == 'obj':
        raise Unsupported('coerce %s %s' % (ka, kb))
    a, b = to_kind(a, k), to_kind(b, k)
    return Z(a), Z(b)


def cmp(op, a, b):
    "scalar comparison"
    if op in ('==', '!='):
        if not is_z3(a) and not is_z3(b):
            r = (a == b)
            return r if op == '==' else not r
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return op == '!='
        if kind_of(a) == 'bool' and kind_of(b) == 'bool':
            r = simp(Z(a) == Z(b))
            return r if op == '==' else simp(Not(r)) if is_z3(r) else (not r)
        x, y = coerce2(num(a), num(b))
        r = simp(x == y)
        if op == '==':
            return r
        return (not r) if isinstance(r, bool) else z3.Not(r)
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    a, b = coerce2(a, b)
    return simp({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])


def ite(c, a, b):
    "scalar/array/tuple conditional value"
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, ArrVal) or isinstance(b, ArrVal):
        if not (isinstance(a, ArrVal) and isinstance(b, ArrVal)):
            raise Unsupported('merge array with non array')
        return a.merge(c, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if not is_scalar(a) or not is_scalar(b):
        if type(a) is type(b) and not is_z3(a) and a == b:
            return a
        raise Unsupported('merge %r / %r' % (type(a), type(b)))
    if not is_z3(a) and not is_z3(b) and type(a) == type(b) and a == b:
        return a
    if kind_of(a) == 'bool' and kind_of(b) == 'bool':
        return simp(z3.If(c, Z(a), Z(b)))
    x, y = coerce2(num(a), num(b))
    return simp(z3.If(c, x, y))


def as_int(x):
    """integer expression equal to the real expression x, None if x is not
    syntactically a whole number"""
    if not is_z3(x):
        return int(x) if x == int(x) else None
    if x.sort().kind() == z3.Z3_INT_SORT:
        return x
    if z3.is_rational_value(x):
        return x.numerator_as_long() if x.denominator_as_long() == 1 else None
    if z3.is_to_real(x):
        return x.arg(0)
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE:
        a, b = as_int(x.arg(1)), as_int(x.arg(2))
        if a is None or b is None:
            return None
        return z3.If(x.arg(0), to_z3int(a), to_z3int(b))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        v = [as_int(x.arg(i)) for i in range(x.num_args())]
        if any(y is None for y in v):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        r = v[0]
        for y in v[1:]:
            r = r + y if k == z3.Z3_OP_ADD else r * y \
                if k == z3.Z3_OP_MUL else r - y
        return r
    return None


def as_frac(x):
    "(n, d): x equals the integer expression n divided by d; None if unknown"
    if not is_z3(x):
        return None
    if z3.is_rational_value(x):
        return z3.IntVal(x.numerator_as_long()), x.denominator_as_long()
    n = as_int(x)
    if n is not None:
        return to_z3int(n), 1
    k = x.decl().kind()
    if k == z3.Z3_OP_MUL and x.num_args() == 2:
        a, b = as_frac(x.arg(0)), as_frac(x.arg(1))
        if a is None or b is None:
            return None
        return a[0] * b[0], a[1] * b[1]
    if k == z3.Z3_OP_DIV and z3.is_rational_value(x.arg(1)) and \
            x.arg(1).numerator_as_long() > 0:
        a = as_frac(x.arg(0))
        if a is None:
            return None
        return (a[0] * x.arg(1).denominator_as_long(),
                a[1] * x.arg(1).numerator_as_long())
    if k == z3.Z3_OP_ITE:
        a, b = as_frac(x.arg(1)), as_frac(x.arg(2))
        if a is None or b is None:
            return None
        return z3.If(x.arg(0), a[0] * b[1], b[0] * a[1]), a[1] * b[1]
    return None


def real_floor(x):
    "integer part of a real expression"
    f = as_frac(x)
    if f is None:
        return simp(z3.ToInt(x))
    return simp(f[0] / f[1]) if f[1] != 1 else simp(f[0])


def real_ceil(x):
    f = as_frac(x)
    if f is None:
        return simp(-z3.ToInt(-x))
    return simp(-((-f[0]) / f[1])) if f[1] != 1 else simp(f[0])


def to_z3int(x):
    return x if is_z3(x) else z3.IntVal(x)


def floordiv(a, b):
    a, b = num(a), num(b)
    if is_z3(a) and kind_of(a) == 'real' and not is_z3(b) \
            and b == int(b) and b > 0:
        n = as_int(a)
        if n is not None and is_z3(n):
            return z3.ToReal(simp(n / int(b)))
    if not is_z3(a) and not is_z3(b):
        return a // b
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'int' and kb == 'int':
        x, y = coerce2(a, b)
        if not is_z3(b) and b > 0:
            return simp(x / y)
        # floor semantics for any sign: z3 div rounds so that 0 <= rem < |y|
        q = x / y
        return simp(z3.If(z3.And(y < 0, x % y != 0), q - 1, q))
    x, y = coerce2(to_kind(a, 'real'), to_kind(b, 'real'))
    return simp(z3.ToReal(z3.ToInt(x / y)))


def mod(a, b):
    a, b = num(a), num(b)
    if is_z3(a) and kind_of(a) == 'real' and not is_z3(b) \
            and b == int(b) and b > 0:
        n = as_int(a)
        if n is not None and is_z3(n):
            return z3.ToReal(simp(n % int(b)))
    if not is_z3(a) and not is_z3(b):
        return a % b
    if kind_of(a) == 'int' and kind_of(b) == 'int':
        x, y = coerce2(a, b)
        if not is_z3(b) and b > 0:
            return simp(x % y)
    return sub(a, mul(b, floordiv(a, b)))


def truediv(a, b):
    a, b = to_kind(a, 'real'), to_kind(b, 'real')
    if not is_z3(a) and not is_z3(b):
        return a / b
    return simp(Z(a) / Z(b))


def absv(a):
    a = num(a)
    if not is_z3(a):
        return abs(a)
    return simp(z3.If(a >= 0, a, -a))


def minv(a, b):
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return min(a, b)
    return ite(cmp('<=', a, b), a, b)


def maxv(a, b):
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return max(a, b)
    return ite(cmp('>=', a, b), a, b)


def powv(a, n):
    n = num(n)
    if is_z3(n):
        raise Unsupported('symbolic exponent')
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
        r = powv(a, n)
        return to_kind(r, 'real')
    if isinstance(n, Fraction) or n < 0 or n > 6:
        a = num(a)
        if not is_z3(a) and isinstance(n, int):
            return Fraction(a) ** n
        raise Unsupported('exponent %s' % n)
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


class ArrVal:
    """functional array / list snapshot: shape (tuple of const|z3 Int), get(idx
    tuple) -> value; kind int/real/bool/obj"""
    __slots__ = ('shape', 'get', 'kind', 'is_list', 'store')

    def __init__(self, shape, get, kind, is_list=False, store=None):
        self.shape, self.get, self.kind = tuple(shape), get, kind
        self.is_list = is_list
        self.store = store      # (previous value, index, new element)

    @property
    def ndim(self):
        return len(self.shape)

    def merge(self, c, other):
        if self.ndim != other.ndim:
            raise Unsupported('merge arrays of different ndim')
        k = join_kind(self.kind, other.kind) if self.kind != other.kind \
            else self.kind
        sh = [ite(c, a, b) for a, b in zip(self.shape, other.shape)]
        return ArrVal(sh, lambda ix, a=self, b=other: ite(
            c, a.get(ix), b.get(ix)), k, self.is_list)

    def size(self):
        r = 1
        for s in self.shape:
            r = mul(r, s)
        return r

    def map(self, f, kind=None):
        g = self.get
        return ArrVal(self.shape, lambda ix: f(g(ix)), kind or self.kind,
                      False)


def const_array(items, kind=None, is_list=False):
    "1-D array with concrete length from a python list of scalar values"
    items = list(items)
    if kind is None:
        kind = 'int' if not items else None
        for v in items:
            k = kind_of(v) if is_scalar(v) else 'obj'
            kind = k if kind is None else (
                kind if kind == k else join_kind(kind, k))

    def get(ix, items=items):
        i = ix[0]
        if not is_z3(i):
            if 0 <= i < len(items):
                return items[i]
            # out of range reads are excluded by safety obligations
            if not items:
                raise Unsupported('read of empty array')
            return items[-1]
        if not items:
            raise Unsupported('read of empty array')
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(simp(i == k), items[k], r)
        return r
    a = ArrVal((len(items),), get, kind, is_list)
    return a


class Ref:
    "reference to a heap cell"
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class View:
    "array view: base Ref and an index map (view idx tuple -> base idx tuple)"
    __slots__ = ('ref', 'shape', 'imap')

    def __init__(self, ref, shape, imap):
        self.ref, self.shape, self.imap = ref, tuple(shape), imap


class ElemRef:
    "element (itself an array) of a symbolic list living in a heap cell"
    __slots__ = ('ref', 'index')

    def __init__(self, ref, index):
        self.ref, self.index = ref, index


class ObjVal:
    "record content of a heap cell"
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ListVal:
    "python list of concrete length (content of a heap cell)"
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class DictVal:
    "dictionary: concrete items + optional symbolic map"
    __slots__ = ('items', 'fn')

    def __init__(self, items, fn=None):
        self.items, self.fn = dict(items), fn   # fn: (has(key), get(key))


class SetVal:
    """set given by a membership-generating family: elements gen(i), 0<=i<n,
    restricted by cond(value)"""
    __slots__ = ('n', 'gen', 'excl')

    def __init__(self, n, gen, excl=()):
        self.n, self.gen, self.excl = n, gen, tuple(excl)


class RangeVal:
    __slots__ = ('lo', 'n', 'step')

    def __init__(self, lo, n, step):
        self.lo, self.n, self.step = lo, n, step


class IterVal:
    "generic finite iterable: count n, element function"
    __slots__ = ('n', 'elem')

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class FuncVal:
    "user function: AST + defining module namespace + closure env"
    __slots__ = ('node', 'mod', 'closure', 'name', 'self_obj')

    def __init__(self, node, mod, closure=None, name=None, self_obj=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.name = name
        self.self_obj = self_obj


class Builtin:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class ModVal:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class ClassVal:
    __slots__ = ('node', 'mod', 'name')

    def __init__(self, node, mod, name):
        self.node, self.mod, self.name = node, mod, name


class BoundMethod:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

"""Vocabulary of the executable contracts.  Run by CPython these are plain
loops (runtime contract checking, replay); read by the verifier they are
quantifiers and summations over unbounded ranges."""


def forall(lo, hi, f):
    return all(f(i) for i in range(lo, hi))


def exists(lo, hi, f):
    return any(f(i) for i in range(lo, hi))


def total(lo, hi, f):
    "sum of f(i) for lo <= i < hi"
    r = 0
    for i in range(lo, hi):
        r = r + f(i)
    return r


def count(lo, hi, f):
    "number of i with lo <= i < hi and f(i)"
    return sum(1 for i in range(lo, hi) if f(i))


def implies(a, b):
    return bool(b) if a else True


def iff(a, b):
    return bool(a) == bool(b)


def ite(c, a, b):
    return a if c else b


def real(x):
    return float(x)


def near(a, b, tol=1e-9):
    "equality of reals up to floating point noise (exact for the verifier)"
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


OPAQUE = {}


def opaque(name, x, n):
    "value of a function outside the repository (n reals)"
    return OPAQUE[name](x)

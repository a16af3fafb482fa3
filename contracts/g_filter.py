"""C02 contiguity filters of candidate stacking sequences
(src/guidelines/internal_contig.py, external_contig.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C02"


def equal_run(s, j, k):
    "k + 1 identical plies from position j of the sequence"
    return forall(0, k, lambda t: s[j + 1 + t] == s[j])


def val_stack(stack, constraints):
    c = constraints
    if not c.contig or c.n_contig >= stack.shape[0]:
        return True
    n = c.n_contig
    return not exists(0, stack.shape[0] - n,
                      lambda j: equal_run(stack, j, n))


def bad_limit(c):
    return c.contig and not (2 <= c.n_contig <= 6)


def raises_stack(stack, constraints):
    return bad_limit(constraints) and constraints.n_contig < stack.shape[0]


def row_ok(a, i, m, c):
    "row i (first m plies) has no block longer than the limit"
    n = c.n_contig
    if not c.contig or n >= m:
        return True
    return not exists(0, m - n, lambda j: forall(
        0, n, lambda t: a[i, j + 1 + t] == a[i, j]))


def kept(r, a, ok):
    "r holds the rows of a that satisfy ok, in the same order"
    m = a.shape[0]
    return (r.ndim == 2 and r.shape[1] == a.shape[1] and
            r.shape[0] == count(0, m, ok) and
            forall(0, m, lambda i: (not ok(i)) or forall(
                0, a.shape[1], lambda j: r[count(0, i, ok), j] == a[i, j])))


def same_rows(r, a, b, ok):
    "r holds the rows of b of the indices i that satisfy ok"
    m = a.shape[0]
    return (r.shape[0] == count(0, m, ok) and
            r.shape[1] == b.shape[1] and
            forall(0, m, lambda i: (not ok(i)) or forall(
                0, b.shape[1], lambda j: r[count(0, i, ok), j] == b[i, j])))


def post_internal(r, angle, constraints, angle2):
    def ok(i):
        return row_ok(angle, i, angle.shape[1], constraints)
    return kept(r[0], angle, ok) and (
        r[1] is None if angle2 is None else same_rows(
            r[1], angle, angle2, ok))


def post_internal_1d(r, angle, constraints, angle2):
    n = angle.shape[0]
    good = val_stack(angle, constraints)
    return (r[0].ndim == 2 and r[0].shape[1] == n and
            r[0].shape[0] == ite_int(good) and
            (not good or forall(0, n, lambda j: r[0][0, j] == angle[j])))


def raises_internal(angle, constraints):
    return bad_limit(constraints) and \
        constraints.n_contig < angle.shape[1]


def junction(a, i, n, before, k):
    """the last k plies of the adjacent group and the first n + 1 - k of the
    row are the same"""
    b = before.shape[0]
    return before[b - 1] == a[i, 0] and forall(
        0, k - 1, lambda t: before[b - 2 - t] == a[i, 0]) and forall(
            0, n - k, lambda t: a[i, 1 + t] == a[i, 0])


def joint_ok(a, i, m, c, before):
    n = c.n_contig
    if not c.contig:
        return True
    return not exists(1, n + 1, lambda k: (
        k <= before.shape[0] and n + 1 - k <= m and
        junction(a, i, n, before, k)))


def post_external(r, angle, n_plies_group, constraints, ss_before, angle2):
    def ok(i):
        return joint_ok(angle, i, n_plies_group, constraints, ss_before)
    return kept(r[0], angle, ok) and (
        r[1] is None if angle2 is None else same_rows(
            r[1], angle, angle2, ok))


def raises_external(angle, n_plies_group, constraints, ss_before):
    return n_plies_group > angle.shape[1] or (
        bad_limit(constraints) and ss_before.shape[0] >= 1)


def post_true(r):
    return True


def pre_external(angle, n_plies_group, constraints, ss_before):
    # zero-ply groups do not occur
    return n_plies_group >= 1


POOL2 = [0, 0, 0, 0, 0, 45, 90]
ROWS = Mat('int', 'm', 'n', cmin=1, lo=-89, hi=90, pool=POOL2)
ROWS2 = OneOf(None, Mat('int', 'm', 'n2', cmin=1, lo=-89, hi=90))
NC = OneOf(2, 3, 4, 5, 6)
BEFORE = Arr('int', 'b', 0, lo=-89, hi=90, pool=POOL2)
G = 'src.guidelines.'


def both(**kw):
    return OneOf(Obj(BELLA_C, **kw), Obj(LAYLA_C, **kw))


def cons(**kw):
    return Obj(BELLA_C, contig=Bool(), **kw)


CONTRACTS = [
    Contract('internal_contig2', G + 'internal_contig:internal_contig2',
             {'stack': plies(pool=POOL2), 'constraints': cons(n_contig=NC)},
             result=val_stack, size=10, samples=800),
    Contract('internal_contig2.limits',
             G + 'internal_contig:internal_contig2',
             {'stack': plies(pool=POOL2),
              'constraints': cons(n_contig=OneOf(0, 1, 7, 9))},
             ensures=post_true, raises={'Exception': raises_stack},
             size=10),
    Contract('internal_contig.row', G + 'internal_contig:internal_contig',
             {'angle': plies(pool=POOL2, nmin=1),
              'constraints': cons(n_contig=NC),
              'angle2': OneOf(None)},
             ensures=post_internal_1d, size=9, samples=300),
    Contract('internal_contig.limits', G + 'internal_contig:internal_contig',
             {'angle': ROWS, 'constraints': cons(n_contig=OneOf(0, 1, 7, 9)),
              'angle2': ROWS2},
             ensures=post_true, raises={'Exception': raises_internal},
             size=10),
    Contract('external_contig.limits', G + 'external_contig:external_contig',
             {'angle': ROWS, 'n_plies_group': Int(1, None, pool=range(1, 13)),
              'constraints': cons(n_contig=OneOf(0, 1, 7, 9)),
              'ss_before': BEFORE, 'angle2': ROWS2},
             ensures=post_true, raises={'Exception': raises_external},
             requires=pre_external, size=8),
]
for _k in (2, 3, 4, 5, 6):
    CONTRACTS += [
        Contract('internal_contig.%d' % _k,
                 G + 'internal_contig:internal_contig',
                 {'angle': ROWS, 'constraints': cons(n_contig=_k),
                  'angle2': ROWS2},
                 ensures=post_internal, size=9, samples=200),
        Contract('external_contig.%d' % _k,
                 G + 'external_contig:external_contig',
                 {'angle': ROWS, 'n_plies_group': Int(1, None, pool=range(1, 10)),
                  'constraints': cons(n_contig=_k),
                  'ss_before': BEFORE, 'angle2': ROWS2},
                 ensures=post_external, requires=pre_external,
                 raises={'Exception': raises_external},
                 proof_tier='quick' if _k == 2 else 'thorough',
                 size=8, samples=300)]

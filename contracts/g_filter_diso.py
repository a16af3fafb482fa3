"""C04 disorientation-and-contiguity filters of candidate stacking sequences
(src/guidelines/internal_diso_contig.py, external_diso_contig.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts.g_filter import (row_ok, kept, same_rows, joint_ok, bad_limit,
                                pre_external, post_true)


PROPERTY = "C04"


def sep(a, b):
    "angle between two fibre directions (lines, not vectors)"
    return min(abs(a - b), 180 - abs(a - b))


def diso_ok(a, i, m, c):
    "neighbouring plies of row i differ by at most the allowed angle"
    if not c.diso:
        return True
    return forall(0, m - 1, lambda j: sep(
        a[i, j + 1], a[i, j]) <= c.delta_angle)


def post_internal(r, angle, constraints, angle2):
    def ok(i):
        return diso_ok(angle, i, angle.shape[1], constraints) and row_ok(
            angle, i, angle.shape[1], constraints)
    return kept(r[0], angle, ok) and (
        r[1] is None if angle2 is None else same_rows(
            r[1], angle, angle2, ok))


def raises_internal(angle, constraints):
    return bad_limit(constraints) and \
        constraints.n_contig < angle.shape[1]


def post_external(r, angle, n_plies_group, constraints, ss_before, angle2):
    b = ss_before.shape[0]

    def ok(i):
        return (not constraints.diso or b == 0 or sep(
            angle[i, 0], ss_before[b - 1]) <= constraints.delta_angle) and \
            joint_ok(angle, i, n_plies_group, constraints, ss_before)
    return kept(r[0], angle, ok) and (
        r[1] is None if angle2 is None else same_rows(
            r[1], angle, angle2, ok))


def raises_external(angle, n_plies_group, constraints, ss_before):
    return n_plies_group > angle.shape[1] or (
        bad_limit(constraints) and ss_before.shape[0] >= 1)


POOL2 = [0, 0, 0, 0, 45, 90]
ROWS = Mat('int', 'm', 'n', cmin=1, lo=-89, hi=90, pool=POOL2)
WIDE = Mat('int', 'm', 'n', cmin=1, lo=-89, hi=90, pool=ANGLES2)
ROWS2 = OneOf(None, Mat('int', 'm', 'n2', cmin=1, lo=-89, hi=90))
BEFORE = Arr('int', 'b', 0, lo=-89, hi=90, pool=POOL2)
DELTA = Int(0, 90, pool=[45, 45, 30, 60, 15, 90, 0])
G = 'src.guidelines.'


def cons(contig=Bool(), diso=Bool(), **kw):
    return Obj(BELLA_C, diso=diso, delta_angle=DELTA, contig=contig, **kw)


CONTRACTS = [
    Contract('internal_diso_contig.diso',
             G + 'internal_diso_contig:internal_diso_contig',
             {'angle': WIDE, 'constraints': cons(contig=False, n_contig=3),
              'angle2': ROWS2},
             ensures=post_internal, size=6, samples=500),
    Contract('external_diso_contig.diso',
             G + 'external_diso_contig:external_diso_contig',
             {'angle': WIDE, 'n_plies_group': Int(1, None, pool=range(1, 7)),
              'constraints': cons(contig=False, n_contig=3),
              'ss_before': Arr('int', 'b', 0, lo=-89, hi=90, pool=ANGLES2),
              'angle2': ROWS2},
             ensures=post_external, requires=pre_external,
             raises={'Exception': raises_external}, size=6, samples=500),
    Contract('internal_diso_contig.limits',
             G + 'internal_diso_contig:internal_diso_contig',
             {'angle': ROWS,
              'constraints': cons(n_contig=OneOf(0, 1, 7, 9), diso=False),
              'angle2': ROWS2},
             ensures=post_true, raises={'Exception': raises_internal},
             size=10),
    Contract('external_diso_contig.limits',
             G + 'external_diso_contig:external_diso_contig',
             {'angle': ROWS, 'n_plies_group': Int(1, None, pool=range(1, 13)),
              'constraints': cons(n_contig=OneOf(0, 1, 7, 9), diso=False),
              'ss_before': BEFORE, 'angle2': ROWS2},
             ensures=post_true, raises={'Exception': raises_external},
             requires=pre_external, size=8),
]
for _k in (2, 3, 4, 5, 6):
    CONTRACTS += [
        Contract('internal_diso_contig.%d' % _k,
                 G + 'internal_diso_contig:internal_diso_contig',
                 {'angle': ROWS, 'constraints': cons(n_contig=_k),
                  'angle2': ROWS2},
                 ensures=post_internal, size=9, samples=200,
                 proof_tier='quick' if _k < 4 else 'thorough'),
        Contract('external_diso_contig.%d' % _k,
                 G + 'external_diso_contig:external_diso_contig',
                 {'angle': ROWS, 'n_plies_group': Int(1, None, pool=range(1, 10)),
                  'constraints': cons(n_contig=_k),
                  'ss_before': BEFORE, 'angle2': ROWS2},
                 ensures=post_external, requires=pre_external,
                 raises={'Exception': raises_external},
                 proof_tier='thorough', size=8, samples=300)]

"""C05 balance guideline (src/guidelines/balance.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C05"
MOD = 'src.guidelines.balance:'


def number(stack, a):
    return count(0, len(stack), lambda i: stack[i] == a)


def val(stack, constraints):
    return forall(0, len(stack), lambda i: stack[i] == 0 or stack[i] == 90 or
                  number(stack, abs(stack[i])) ==
                  number(stack, -abs(stack[i])))


def imbalance(npa, ab):
    return total(0, ab.shape[0], lambda k: abs(
        npa[ab[k, 1]] - npa[ab[k, 2]]))


def pre_ab(n_plies_per_angle, constraints):
    ab = constraints.angles_bal
    n = n_plies_per_angle.shape[0]
    return forall(0, ab.shape[0], lambda k: 0 <= ab[k, 1] and ab[k, 1] < n
                  and 0 <= ab[k, 2] and ab[k, 2] < n)


def pre_ab2(n_plies_per_angle, constraints):
    ab = constraints.angles_bal
    n = n_plies_per_angle.shape[1]
    return forall(0, ab.shape[0], lambda k: 0 <= ab[k, 1] and ab[k, 1] < n
                  and 0 <= ab[k, 2] and ab[k, 2] < n)


def post_one(r, n_plies_per_angle, constraints, cummul_areas):
    n = total(0, n_plies_per_angle.shape[0], lambda k: n_plies_per_angle[k])
    if n == 0:
        return r == 0
    return near(r * n, cummul_areas * imbalance(
        n_plies_per_angle, constraints.angles_bal))


def post_many(r, n_plies_per_angle, constraints, cummul_areas):
    return r.shape[0] == n_plies_per_angle.shape[0] and forall(
        0, r.shape[0], lambda i: row(r[i], n_plies_per_angle[i],
                                     constraints.angles_bal, cummul_areas))


def row(x, npa, ab, w):
    n = total(0, npa.shape[0], lambda k: npa[k])
    if n == 0:
        return x == 0
    return near(x, w * (imbalance(npa, ab) / n))


def bal_rows(rng, m, n):
    return np.array([[rng.choice([45, 30]), rng.randrange(4),
                      rng.randrange(4)] for _ in range(m)],
                    dtype=int).reshape(m, 3)


C = Obj(BELLA_C, angles_bal=Mat('int', 'nb', 3, lo=0, hi=90,
                                sampler=bal_rows))

CONTRACTS = [
    Contract('is_balanced', MOD + 'is_balanced',
             {'stack': plies(pool=[0, 45, -45, 90, 30, -30, 45, -45]),
              'constraints': Obj(LAYLA_C)}, result=val, samples=1500, size=6),
    Contract('is_balanced.permuted', MOD + 'is_balanced',
             {'stack': plies(pool=[45, -45, 30, -30]),
              'constraints': Obj(LAYLA_C)}, result=val, samples=600, size=8),
    Contract('calc_penalty_bal.one', MOD + 'calc_penalty_bal',
             {'n_plies_per_angle': Arr('int', 'n', 4, 0, 9),
              'constraints': C, 'cummul_areas': Real(0, 10)},
             requires=pre_ab, ensures=post_one),
    Contract('calc_penalty_bal.many', MOD + 'calc_penalty_bal',
             {'n_plies_per_angle': Mat('int', 'm', 'n', 0, 4, 0, 9),
              'constraints': C, 'cummul_areas': Real(0, 10)},
             requires=pre_ab2, ensures=post_many),
]

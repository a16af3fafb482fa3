"""C01 contiguity guideline (src/guidelines/contiguity.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C01"
MOD = 'src.guidelines.contiguity:'


def block(ss, i, n):
    "n + 1 equal adjacent plies starting at i"
    return forall(0, n, lambda k: ss[i + k] == ss[i + k + 1])


def pre_is_contig(ss, n_contig):
    return 2 <= n_contig and n_contig <= 6


def val_is_contig(ss, n_contig):
    return forall(0, len(ss) - n_contig,
                             lambda i: not block(ss, i, n_contig))


def pre_never(ss, n_contig):
    return n_contig > 6 or n_contig < 1


def raises_never(ss, n_contig):
    return n_contig < len(ss)


def post_true(r):
    return r == True                                        # noqa: E712


def post_vector(r, ss, n_contig):
    return implies(len(ss) > n_contig,
                   r.shape[0] == len(ss) - n_contig and
                   forall(0, len(ss) - n_contig, lambda i:
                          r[i] == ite(block(ss, i, n_contig), 1, 0))) \
        and implies(len(ss) <= n_contig, r.shape[0] == 0)


def post_matrix(r, ss, n_contig):
    return len(r) == len(ss) and forall(
        0, len(ss), lambda p: r[p].shape[0] == ss[p].shape[0] and forall(
            0, ss[p].shape[0], lambda i:
                bool(r[p][i]) == (i + n_contig < ss[p].shape[0] and
                                  block(ss[p], i, n_contig))))


def viol(ss, c, lo, hi):
    return count(lo, hi - c.n_contig, lambda i: block(ss, i, c.n_contig))


def post_mp(r, ss, constraints):
    sk = skipped(constraints)
    return r.shape[0] == len(ss) and forall(
        0, len(ss), lambda p: r[p] == viol(
            ss[p], constraints, sk, ss[p].shape[0] - sk))


def post_ss(r, ss, constraints):
    sk = skipped(constraints)
    return r == viol(ss, constraints, sk, ss.shape[0] - sk)


def post_penalty(r, n, viola_contig, contig, coeff_contig,
                 norm_diso_contig):
    if contig:
        return r.shape[0] == viola_contig.shape[0] and forall(
            0, viola_contig.shape[0], lambda i:
            near(r[i] * norm_diso_contig, coeff_contig * total(
                0, viola_contig.shape[1], lambda j: viola_contig[i, j])))
    return r.shape[0] == n and forall(0, n, lambda i: r[i] == 0)


NC = OneOf(2, 3, 4, 5, 6)

is_contig = Contract('is_contig', MOD + 'is_contig',
             {'ss': plies(), 'n_contig': NC},
             requires=pre_is_contig, result=val_is_contig, size=9,
             samples=600)

CONTRACTS = [
    is_contig,
    Contract('is_contig.limits', MOD + 'is_contig',
             {'ss': plies(), 'n_contig': OneOf(0, -1, 7, 8)},
             requires=pre_never, ensures=post_true,
             raises={'Exception': raises_never}, size=9),
    Contract('calc_contig_vector', MOD + 'calc_contig_vector',
             {'ss': plies(), 'n_contig': NC},
             modular=[is_contig], ensures=post_vector, size=12),
    Contract('calc_matrix_viol_contig', MOD + 'calc_matrix_viol_contig',
             {'ss': panels(pool=[0, 45, 45, 45, 90], emax=11),
              'n_contig': NC}, modular=[is_contig], ensures=post_matrix, size=3),
    Contract('calc_penalty_contig_ss', MOD + 'calc_penalty_contig_ss',
             {'ss': plies(pool=[0, 45, 45, 45, 90], nmin=2),
              'constraints': dam_tol_rules(n_contig=NC)},
             modular=[is_contig], ensures=post_ss, size=11, samples=600),
    Contract('penalty_contig', MOD + 'penalty_contig',
             {'n': Int(0, 50), 'viola_contig': Mat('int', 'm', 'k', lo=0,
                                                   hi=9),
              'contig': Bool(), 'coeff_contig': Real(0, 10),
              'norm_diso_contig': Int(1, 200)},
             ensures=post_penalty),
]

# one contract per contiguity limit: verified in parallel
for _k in (2, 3, 4, 5, 6):
    CONTRACTS.append(Contract(
        'calc_penalty_contig_mp.%d' % _k, MOD + 'calc_penalty_contig_mp',
        {'ss': panels(pool=[0, 45, 45, 45, 90], emax=11, emin=2),
         'constraints': dam_tol_rules(n_contig=_k)},
        modular=[is_contig], ensures=post_mp, size=3, samples=300))

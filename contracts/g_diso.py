"""C03 disorientation guideline (src/guidelines/disorientation.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C03"
MOD = 'src.guidelines.disorientation:'


def sep(a, b):
    "angle between two fibre directions (lines, not vectors)"
    return min(abs(a - b), 180 - abs(a - b))


def ok(a, b, d):
    return sep(a, b) <= d


def val_is_diso(angle1, angle2, delta_angle):
    return ok(angle1, angle2, delta_angle)


def post_sym(r, angle1, angle2, delta_angle):
    return iff(r, sep(angle2, angle1) <= delta_angle)


def val_ss(ss, delta_angle, dam_tol, dam_tol_rule, n_plies_dam_tol):
    sk = ite_int(dam_tol and (dam_tol_rule == 2 or dam_tol_rule == 3 or
                              n_plies_dam_tol == 2))
    return forall(sk, len(ss) - sk - 1,
                  lambda i: ok(ss[i], ss[i + 1], delta_angle))


def raises_ss(dam_tol, dam_tol_rule, n_plies_dam_tol):
    return dam_tol and dam_tol_rule is None and n_plies_dam_tol is None


def post_mp0(r, ss, delta_angle):
    return len(r) == len(ss) and forall(
        0, len(ss), lambda p: r[p].shape[0] == ss[p].shape[0] - 1 and forall(
            0, ss[p].shape[0] - 1, lambda i: iff(
                r[p][i], not ok(ss[p][i], ss[p][i + 1], delta_angle))))


def viol(ss, d, lo, hi):
    return count(lo, hi - 1, lambda i: not ok(ss[i], ss[i + 1], d))


def post_mp(r, ss, constraints):
    sk = skipped(constraints)
    return r.shape[0] == len(ss) and forall(
        0, len(ss), lambda p: r[p] == viol(
            ss[p], constraints.delta_angle, sk, ss[p].shape[0] - sk))


def post_ss(r, stack, constraints):
    sk = skipped(constraints)
    return r == viol(stack, constraints.delta_angle, sk,
                     stack.shape[0] - sk)


def post_penalty(r, n, viola_diso, diso, coeff_diso, norm_diso_contig):
    if diso:
        return r.shape[0] == viola_diso.shape[0] and forall(
            0, viola_diso.shape[0], lambda i:
            near(r[i] * norm_diso_contig, coeff_diso * total(
                0, viola_diso.shape[1], lambda j: viola_diso[i, j])))
    return r.shape[0] == n and forall(0, n, lambda i: r[i] == 0)


def joins(p, child_ss, level, pdl, c, bot, top, last):
    "violations at the interfaces created when the ply is added to panel p"
    d = c.delta_angle
    a = child_ss[0]
    nb, nt = len(bot[p]), len(top[p])
    if pdl[p, level] < 0:
        if last and not c.sym and not ok(bot[p][nb - 1], top[p][0], d):
            return 1
        return 0
    down = c.sym or level % 2 == 0
    v = 0
    if (down or (last and not c.sym)) and nb > 0 \
            and not ok(a, bot[p][nb - 1], d):
        v = v + (2 if c.sym else 1)
    if not c.sym and (not down or last) and nt > 0 \
            and not ok(a, top[p][0], d):
        v = v + 1
    return v


def post_inc(r, mother_n_viola_diso, mother_ss_bot, child_ss, level, n_panels,
             pdl, constraints, mother_ss_top, last_level):
    return r.shape[0] == n_panels and forall(
        0, n_panels, lambda p: r[p] == mother_n_viola_diso[p] + joins(
            p, child_ss, level, pdl, constraints, mother_ss_bot,
            mother_ss_top, last_level))


ANG = Int(-89, 90, pool=POOL)
DELTA = Int(0, 90, pool=[45, 45, 30, 60, 15, 90, 0])

is_diso = Contract('is_diso', MOD + 'is_diso',
                   {'angle1': ANG, 'angle2': ANG, 'delta_angle': DELTA},
                   result=val_is_diso, ensures=post_sym, samples=2000)

CONTRACTS = [
    is_diso,
    Contract('is_diso_ss', MOD + 'is_diso_ss',
             {'ss': plies(), 'delta_angle': DELTA, 'dam_tol': Bool(),
              'dam_tol_rule': OneOf(None, 1, 2, 3),
              'n_plies_dam_tol': OneOf(None, 1, 2)},
             modular=[is_diso], result=val_ss,
             raises={'Exception': raises_ss}, samples=1500),
    Contract('calc_penalty_diso_mp_0', MOD + 'calc_penalty_diso_mp_0',
             {'ss': panels(emin=1, emax=9), 'delta_angle': DELTA},
             modular=[is_diso], ensures=post_mp0, size=3),
    Contract('calc_number_violations_diso_mp',
             MOD + 'calc_number_violations_diso_mp',
             {'ss': panels(emin=3, emax=9),
              'constraints': dam_tol_rules(delta_angle=DELTA)},
             modular=[is_diso], ensures=post_mp, size=3, samples=600),
    Contract('calc_n_penalty_diso_ss', MOD + 'calc_n_penalty_diso_ss',
             {'stack': plies(nmin=3),
              'constraints': dam_tol_rules(delta_angle=DELTA)},
             modular=[is_diso], ensures=post_ss, size=10, samples=600),
    Contract('calc_penalty_diso', MOD + 'calc_penalty_diso',
             {'n': Int(0, 50), 'viola_diso': Mat('int', 'm', 'k', lo=0,
                                                   hi=9),
              'diso': Bool(), 'coeff_diso': Real(0, 10),
              'norm_diso_contig': Int(1, 200)},
             ensures=post_penalty),
    Contract('calc_n_viola_diso', MOD + 'calc_n_viola_diso',
             {'mother_n_viola_diso': Arr('int', 'm', 1, 0, 9),
              'mother_ss_bot': panels(emin=1, emax=4),
              'child_ss': plies('one', nmin=1),
              'level': Ghost('level', Int(0, 1)),
              'n_panels': Dim('m', 1),
              'n_plies': Int(2, 2),
              'pdl': Mat('int', 'm', 2, lo=-1, hi=3),
              'constraints': Obj(BELLA_C, sym=Bool(), delta_angle=DELTA),
              'mother_ss_top': panels(emin=1, emax=4),
              'last_level': Bool()},
             modular=[is_diso], ensures=post_inc, size=3),
]

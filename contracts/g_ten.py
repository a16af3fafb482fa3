"""C06 10% rule (src/guidelines/ten_percent_rule.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C06"
MOD = 'src.guidelines.ten_percent_rule:'
TOL = 1e-15


def number(stack, a):
    return count(0, len(stack), lambda i: stack[i] == a)


def at_least(x, y):
    return x + 1e-15 >= y


def verdict(n0, n45, n90, n135, n, c, eq45, eq0):
    p0, p45, p90, p135 = n0 / n, n45 / n, n90 / n, n135 / n
    a = ite(eq0, at_least(p0 + p90, c.percent_0 + c.percent_90),
            at_least(p0, c.percent_0) and at_least(p90, c.percent_90))
    b = ite(eq45, at_least(p45 + p135, c.percent_45 + c.percent_135),
            at_least(p45, c.percent_45) and at_least(p135, c.percent_135))
    return a and b and at_least(p45 + p135, c.percent_45_135)


def val_stack(constraints, stack, equality_45_135, equality_0_90):
    return verdict(number(stack, 0), number(stack, 45), number(stack, 90),
                   number(stack, -45), len(stack), constraints,
                   equality_45_135, equality_0_90)


def both(stack, q, a, c):
    "plies of orientation a: known plies of the stack plus the queued ones"
    n = len(stack)
    if c.sym:
        h = n // 2
        m = 2 * (count(0, h, lambda i: stack[i] == a) + number(q, a))
        if n % 2 == 1 and stack[h] == a:
            m = m + 1
        return m
    return number(stack, a) + number(q, a)


def val_queue(constraints, stack, ply_queue, equality_45_135,
              equality_0_90):
    c = constraints
    return verdict(both(stack, ply_queue, 0, c),
                   both(stack, ply_queue, 45, c),
                   both(stack, ply_queue, 90, c),
                   both(stack, ply_queue, -45, c), len(stack), c,
                   equality_45_135, equality_0_90)


def val_counts(constraints, n_plies_per_angle):
    c = constraints
    k = n_plies_per_angle
    if c.percent_tot > 0:
        return verdict(k[c.index0], k[c.index45], k[c.index90],
                       k[c.index135], total(0, len(k), lambda i: k[i]), c,
                       False, False)
    return True


def pre_counts(constraints, n_plies_per_angle):
    return total(0, len(n_plies_per_angle),
                 lambda i: n_plies_per_angle[i]) > 0


def short(x, y):
    "missing fraction"
    return max(0, y - x)


def shortfall(n0, n45, n90, n135, n, c):
    return (short(n0 / n, c.percent_0) + short(n45 / n, c.percent_45)
            + short(n90 / n, c.percent_90) + short(n135 / n, c.percent_135)
            + short(n45 / n + n135 / n, c.percent_45_135))


def ss_penalty(ss, c):
    return shortfall(number(ss, 0), number(ss, 45), number(ss, 90),
                     number(ss, -45), len(ss), c)


def post_ss(r, ss, constraints):
    c = constraints
    if c.percent_tot > 0:
        return near(r, ss_penalty(ss, c))
    return r == 0


def post_mp(r, ss, constraints):
    c = constraints
    return r.shape[0] == len(ss) and forall(
        0, len(ss), lambda p: near(r[p], ss_penalty(ss[p], c)
                                   if c.percent_tot > 0 else 0))


def pc_penalty(k, c):
    n = total(0, len(k), lambda i: k[i])
    if n == 0:
        return 0
    return shortfall(k[c.index0], k[c.index45], k[c.index90],
                     k[c.index135], n, c)


def post_pc(r, n_plies_per_angle, constraints, cummul_areas):
    if constraints.percent_tot > 0:
        return near(r, cummul_areas * pc_penalty(n_plies_per_angle,
                                                 constraints))
    return r == 0


def post_pcs(r, n_plies_per_angle, constraints, cummul_areas):
    t = n_plies_per_angle
    if constraints.percent_tot > 0:
        return r.shape[0] == t.shape[0] and forall(
            0, t.shape[0], lambda i: near(
                r[i], cummul_areas * pc_penalty(t[i], constraints)))
    return r.shape[0] == t.shape[0] and forall(
        0, t.shape[0], lambda i: r[i] == 0)


def post_ply_counts(r, multipanel, stacks, constraints):
    m = multipanel.reduced.n_panels
    return r.shape[0] == m and r.shape[1] == 4 and forall(
        0, m, lambda p: r[p, 0] == number(stacks[p], -45)
        and r[p, 1] == number(stacks[p], 0)
        and r[p, 2] == number(stacks[p], 45)
        and r[p, 3] == number(stacks[p], 90))


def ang(j):
    return ite(j == 0, -45, ite(j == 1, 0, ite(j == 2, 45, 90)))


def post_nppa(r, n_plies_per_angle_ini, middle_ply, angle):
    m, n = angle.shape[0], angle.shape[1]
    return r.shape[0] == m and r.shape[1] == 4 and forall(
        0, m, lambda s: forall(
            0, 4, lambda j: near(r[s, j], n_plies_per_angle_ini[j] + count(
                0, n, lambda i: angle[s, i] == ang(j)) - ite(
                    middle_ply != 0 and angle[s, n - 1] == ang(j), 0.5, 0))))


def post_nppa2(r, n_plies_per_angle_ini, middle_ply, angle, angle2):
    m, n, n2 = angle.shape[0], angle.shape[1], angle2.shape[1]
    return r.shape[0] == m and r.shape[1] == 4 and forall(
        0, m, lambda s: forall(
            0, 4, lambda j: near(r[s, j], n_plies_per_angle_ini[j] + count(
                0, n, lambda i: angle[s, i] == ang(j)) + count(
                0, n2, lambda i: angle2[s, i] == ang(j)) - ite(
                    middle_ply != 0 and angle[s, n - 1] == ang(j), 0.5, 0))))


def pre4(angle):
    return forall(0, angle.shape[0], lambda i: forall(
        0, angle.shape[1], lambda j: known(angle[i, j])))


def pre44(angle, angle2):
    return pre4(angle) and pre4(angle2)


def known(a):
    return a == 0 or a == 45 or a == -45 or a == 90


def pre_stacks(stacks):
    return forall(0, len(stacks), lambda p: forall(
        0, len(stacks[p]), lambda i: known(stacks[p][i])))


F = Real(0, 1, pool=[0, .1, .1, .2, .3, .25, 1 / 3, .8])


# class invariant of the limits (Constraints.set_percentages, C17): none when
# the rule is off; either the +-45 limits or the combined one
def inv_0(rule_10_percent, _p0):
    return _p0 if rule_10_percent else 0


def inv_90(rule_10_percent, _p90):
    return _p90 if rule_10_percent else 0


def inv_45(rule_10_percent, _combine, _p45):
    return ite(_combine, 0, _p45) if rule_10_percent else 0


def inv_135(rule_10_percent, _combine, _p135):
    return ite(_combine, 0, _p135) if rule_10_percent else 0


def inv_45_135(rule_10_percent, _combine, _p45_135):
    return ite(_combine, _p45_135, 0) if rule_10_percent else 0


def inv_tot(percent_0, percent_45, percent_90, percent_135, percent_45_135):
    return max(percent_0 + percent_45 + percent_90 + percent_135,
               percent_0 + percent_45_135 + percent_90)


LIM = dict(rule_10_percent=Bool(), rule_10_Abdalla=OneOf(False),
           _p0=F, _p45=F, _p90=F, _p135=F, _p45_135=F, _combine=Bool(),
           percent_0=Derived(inv_0), percent_45=Derived(inv_45),
           percent_90=Derived(inv_90), percent_135=Derived(inv_135),
           percent_45_135=Derived(inv_45_135),
           percent_tot=Derived(inv_tot, Real(0, 9)))
C = Obj(BELLA_C, sym=Bool(), index0=Int(0, 3), index45=Int(0, 3),
        index90=Int(0, 3), index135=Int(0, 3), **LIM)
CS = Obj(BELLA_C, sym=Bool(), **LIM)
CSY = Obj(BELLA_C, sym=Const(True), **LIM)
CAS = Obj(BELLA_C, sym=Const(False), **LIM)
DICT4 = Const({-45: 0, 0: 1, 45: 2, 90: 3})
UNK = ANGLES + [666]


def st(is_list=False, pool=ANGLES):
    return Arr('int', 'n', 1, lo=-89, hi=666, is_list=is_list, pool=pool)


CONTRACTS = [
    Contract('is_ten_percent_rule.stack', MOD + 'is_ten_percent_rule',
             {'constraints': CS, 'stack': st(),
              'equality_45_135': Bool(), 'equality_0_90': Bool()},
             kwargs=('stack', 'equality_45_135', 'equality_0_90'),
             result=val_stack, size=9, samples=2000),
    Contract('is_ten_percent_rule.list', MOD + 'is_ten_percent_rule',
             {'constraints': CS, 'stack': st(True),
              'equality_45_135': Bool(), 'equality_0_90': Bool()},
             kwargs=('stack', 'equality_45_135', 'equality_0_90'),
             result=val_stack, size=9, samples=500),
    *[Contract('is_ten_percent_rule.queue_sym.' + nm, MOD
               + 'is_ten_percent_rule',
               {'constraints': Obj(BELLA_C, sym=Const(True), **{
                   **LIM, 'rule_10_percent': Const(on),
                   '_combine': Const(comb)}), 'stack': st(pool=UNK),
                'ply_queue': Arr('int', 'q', 0, -89, 90, is_list=True,
                                 pool=ANGLES),
                'equality_45_135': Bool() if eq is None else Const(eq),
                'equality_0_90': Bool()},
               kwargs=('stack', 'ply_queue', 'equality_45_135',
                       'equality_0_90'),
               result=val_queue, size=8, samples=500)
      for nm, on, comb, eq in (
          ('off', False, False, None), ('each', True, False, False),
          ('each_equal', True, False, True),
          ('combined', True, True, False),
          ('combined_equal', True, True, True))],
    Contract('is_ten_percent_rule.queue_asym', MOD + 'is_ten_percent_rule',
             {'constraints': CAS, 'stack': st(pool=UNK),
              'ply_queue': Arr('int', 'q', 0, -89, 90, is_list=True,
                               pool=ANGLES),
              'equality_45_135': Bool(), 'equality_0_90': Bool()},
             kwargs=('stack', 'ply_queue', 'equality_45_135',
                     'equality_0_90'),
             result=val_queue, size=8, samples=1500),
    Contract('is_ten_percent_rule.counts', MOD + 'is_ten_percent_rule',
             {'constraints': C,
              'n_plies_per_angle': Arr('int', 'k', 4, 0, 9)},
             kwargs=('n_plies_per_angle',), requires=pre_counts,
             result=val_counts, size=4, samples=2000),
    Contract('calc_penalty_10_ss.one', MOD + 'calc_penalty_10_ss',
             {'ss': st(), 'constraints': CS}, ensures=post_ss, samples=1000),
    Contract('calc_penalty_10_ss.list', MOD + 'calc_penalty_10_ss',
             {'ss': st(True), 'constraints': CS}, ensures=post_ss),
    Contract('calc_penalty_10_ss.mp', MOD + 'calc_penalty_10_ss',
             {'ss': panels(emin=1, emax=9), 'constraints': CS,
              'mp': Const(True)}, kwargs=('mp',),
             ensures=post_mp, size=4),
    Contract('calc_penalty_10_pc.one', MOD + 'calc_penalty_10_pc',
             {'n_plies_per_angle': Arr('int', 'k', 4, 0, 9, pool=[
                 0, 0, 0, 1, 2, 5]),
              'constraints': C, 'cummul_areas': Real(0, 9)},
             ensures=post_pc, size=4, samples=1500),
    Contract('calc_penalty_10_pc.list', MOD + 'calc_penalty_10_pc',
             {'n_plies_per_angle': Arr('int', 'k', 4, 0, 9, is_list=True),
              'constraints': C, 'cummul_areas': Real(0, 9)},
             ensures=post_pc, size=4),
    Contract('calc_penalty_10_pc.many', MOD + 'calc_penalty_10_pc',
             {'n_plies_per_angle': Mat('int', 'm', 'k', 0, 4, 0, 9, pool=[
                 0, 0, 0, 1, 2, 5]),
              'constraints': C, 'cummul_areas': Real(0, 9)},
             ensures=post_pcs, size=4, samples=600),
    Contract('calc_ply_counts', MOD + 'calc_ply_counts',
             {'multipanel': Obj(None, reduced=Obj(None,
                                                  n_panels=Dim('m', 1))),
              'stacks': panels(pool=ANGLES, emax=12),
              'constraints': Obj(BELLA_C, n_set_of_angles=4,
                                 ind_angles_dict=DICT4)},
             requires=pre_stacks, ensures=post_ply_counts, size=4),
    Contract('calc_n_plies_per_angle.one', MOD + 'calc_n_plies_per_angle',
             {'n_plies_per_angle_ini': Arr('real', 4, 0, 0, 20),
              'constraints': Obj(BELLA_C, ind_angles_dict=DICT4),
              'middle_ply': Int(0, 9, pool=[0, 0, 3]),
              'angle': Mat('int', 'm', 'n', 1, 1, lo=-45, hi=90,
                           pool=ANGLES)},
             requires=pre4, ensures=post_nppa, size=5),
    Contract('calc_n_plies_per_angle.two', MOD + 'calc_n_plies_per_angle',
             {'n_plies_per_angle_ini': Arr('real', 4, 0, 0, 20),
              'constraints': Obj(BELLA_C, ind_angles_dict=DICT4),
              'middle_ply': Int(0, 9, pool=[0, 0, 3]),
              'angle': Mat('int', 'm', 'n', 1, 1, lo=-45, hi=90,
                           pool=ANGLES),
              'angle2': Mat('int', 'm', 'n2', 1, 1, lo=-45, hi=90,
                            pool=ANGLES)},
             requires=pre44, ensures=post_nppa2, size=5),
]

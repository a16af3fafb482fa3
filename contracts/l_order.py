"""C13 order of optimisation of the plies (src/BELLA/ply_order.py,
src/LAYLA_V02/ply_order.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C13"
B = 'src.BELLA.ply_order:calc_ply_order'
L = 'src.LAYLA_V02.ply_order:'
PANEL = 'src.BELLA.panels:Panel'


def in_order(o, n, sym):
    """symmetric laminates: from the outer surface to the mid-surface, middle
    ply included; asymmetric ones: from the two surfaces inwards, bottom ply
    first"""
    if sym:
        return len(o) == (n + 1) // 2 and forall(
            0, (n + 1) // 2, lambda k: o[k] == k)
    return len(o) == n and forall(
        0, n, lambda k: o[k] == ite(k % 2 == 0, k // 2, n - 1 - k // 2))


def post_bella(r, multipanel, constraints):
    ps = multipanel.reduced.panels
    return len(r) == len(ps) and forall(
        0, len(ps),
        lambda i: in_order(r[i], ps[i].n_plies, constraints.sym))


def post_layla(r, targets, constraints):
    return in_order(r, targets.n_plies, constraints.sym)


def post_each_once(r, targets, constraints):
    n = targets.n_plies
    if constraints.sym:
        return True
    return forall(0, n, lambda p: r[ite(2 * p < n, 2 * p,
                                        2 * (n - 1 - p) + 1)] == p)


def pre_levels(ply_order, n_plies_in_groups, n_groups):
    return len(n_plies_in_groups) == n_groups and total(
        0, n_groups, lambda g: n_plies_in_groups[g]) <= len(ply_order)


def post_levels(r, ply_order, n_plies_in_groups, n_groups):
    return len(r) == n_groups and forall(
        0, n_groups, lambda g: len(r[g]) == n_plies_in_groups[g] and forall(
            0, n_plies_in_groups[g], lambda k: r[g][k] == ply_order[
                total(0, g, lambda h: n_plies_in_groups[h]) + k]))


def gen_levels(rng, size):
    g = rng.randint(0, 5)
    sizes = [rng.randint(0, 6) for _ in range(g)]
    n = sum(sizes) + rng.choice([0, 0, 2])
    o = list(range(n))
    rng.shuffle(o)
    return {'ply_order': np.array(o, dtype=int),
            'n_plies_in_groups': np.array(sizes, dtype=int), 'n_groups': g}


def con(cls):
    return Obj(cls, sym=Bool())


CONTRACTS = [
    Contract('calc_ply_order.BELLA', B, {
        'multipanel': Obj(None, reduced=Obj(None, panels=ObjList(
            'm', 0, PANEL, n_plies=Int(1, None, pool=range(1, 30))))),
        'constraints': con(BELLA_C)}, ensures=post_bella),
    Contract('calc_ply_order.LAYLA', L + 'calc_ply_order', {
        'constraints': con(LAYLA_C),
        'targets': Obj(None, n_plies=Int(0, None, pool=range(0, 30)))},
        ensures=[post_layla, post_each_once]),
    Contract('calc_levels', L + 'calc_levels', {
        'ply_order': Arr('int', 'n', 0, 0, None, pool=range(0, 30)),
        'n_plies_in_groups': Arr('int', 'g', 0, 0, None, pool=range(0, 6)),
        'n_groups': Dim('g', 0)}, requires=pre_levels, ensures=post_levels, mode='bounded',
        generate=gen_levels),
]

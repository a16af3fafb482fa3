"""C14 moments of areas of the plies (src/BELLA/moments_of_areas.py,
src/LAYLA_V02/moment_of_areas.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C14"
B = 'src.BELLA.moments_of_areas:'
L = 'src.LAYLA_V02.moment_of_areas:calc_mom_of_areas'
PANEL = 'src.BELLA.panels:Panel'
MP = 'src.BELLA.multipanels:MultiPanel'


# Ply p (0 at the bottom) of a laminate of n plies of normalised thickness 2
# centred on the mid-plane lies between bot(p) and top(p); of the middle ply
# of a symmetric laminate only the bottom half counts.
def bot(p, n):
    return 2 * p / n - 1


def top(p, n, sym):
    return ite(sym and 2 * p + 1 == n, 0, 2 * (p + 1) / n - 1)


def up2(p, n, sym):
    t, b = top(p, n, sym), bot(p, n)
    return t * t - b * b


def up3(p, n, sym):
    t, b = top(p, n, sym), bot(p, n)
    return t * t * t - b * b * b


def abs1(p, n, sym):
    return top(p, n, sym) - bot(p, n)


def abs2(p, n, sym):
    "the part below the mid-plane and the part above add up"
    t, b = top(p, n, sym), bot(p, n)
    return ite(t * b >= 0, abs(t * t - b * b), t * t + b * b)


def abs3(p, n, sym):
    t, b = top(p, n, sym), bot(p, n)
    return ite(t * b >= 0, abs(t * t * t - b * b * b),
               abs(t * t * t) + abs(b * b * b))


def signed_sym(a, n):
    return a.shape[0] == (n + 1) // 2 and a.shape[1] == 3 and forall(
        0, (n + 1) // 2, lambda k: near(a[k, 0], abs1(k, n, True))
        and a[k, 1] == 0 and near(a[k, 2], up3(k, n, True)))


def plus_sym(a, n):
    "no ply of the lower half crosses the mid-plane"
    return a.shape[0] == (n + 1) // 2 and a.shape[1] == 3 and forall(
        0, (n + 1) // 2, lambda k: near(a[k, 0], abs1(k, n, True))
        and near(a[k, 1], abs(up2(k, n, True)))
        and near(a[k, 2], up3(k, n, True)))


def signed_asym(a, o, n):
    return a.shape[0] == n and a.shape[1] == 3 and forall(
        0, n, lambda k: near(2 * a[k, 0], abs1(o[k], n, False))
        and near(2 * a[k, 1], up2(o[k], n, False))
        and near(2 * a[k, 2], up3(o[k], n, False)))


def plus_asym(a, o, n):
    return a.shape[0] == n and a.shape[1] == 3 and forall(
        0, n, lambda k: near(2 * a[k, 0], abs1(o[k], n, False))
        and near(2 * a[k, 1], abs2(o[k], n, False))
        and near(2 * a[k, 2], abs3(o[k], n, False)))


def pre_bella(multipanel, ply_order, constraints):
    ps = multipanel.reduced.panels
    return len(ply_order) == len(ps) and forall(0, len(ps), lambda i: ok_order(
        ply_order[i], ps[i].n_plies, constraints.sym))


def ok_order(o, n, sym):
    return sym or (len(o) == n and forall(
        0, n, lambda k: 0 <= o[k] and o[k] < n))


def post_signed(r, multipanel, ply_order, constraints):
    ps = multipanel.reduced.panels
    a = r[1]
    if constraints.sym:
        return len(a) == len(ps) and forall(
            0, len(ps), lambda i: signed_sym(a[i], ps[i].n_plies))
    return len(a) == len(ps) and forall(
        0, len(ps), lambda i: signed_asym(a[i], ply_order[i], ps[i].n_plies))


def post_plus(r, multipanel, ply_order, constraints):
    ps = multipanel.reduced.panels
    a = r[0]
    if constraints.sym:
        return len(a) == len(ps) and forall(
            0, len(ps), lambda i: plus_sym(a[i], ps[i].n_plies))
    return len(a) == len(ps) and forall(
        0, len(ps), lambda i: plus_asym(a[i], ply_order[i], ps[i].n_plies))


def gen_bella(rng, size):
    from src.BELLA.constraints import Constraints
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    from src.BELLA.ply_order import calc_ply_order
    c = Constraints(sym=rng.random() < .5)
    m = rng.randint(1, size)
    ps = [Panel(i + 1, constraints=c, neighbour_panels=[i] if i else [],
                n_plies=rng.randint(1, 24)) for i in range(m)]
    mp = MultiPanel(ps)
    mp.reduced = MultiPanel(ps)
    o = calc_ply_order(mp, c)
    if not c.sym and rng.random() < .3:
        o = [np.array(rng.sample(list(x), len(x))) for x in o]
    return {'multipanel': mp, 'constraints': c, 'ply_order': o}


def whole(r, multipanel):
    "the plies of a panel add up to the whole laminate"
    for a, b in zip(*r):
        if not (near(sum(a[:, 0]), 1) and near(sum(a[:, 1]), 1)
                and near(sum(a[:, 2]), 1)):
            return False
        if not (near(sum(b[:, 0]), 1) and near(sum(b[:, 1]), 0)
                and near(sum(b[:, 2]), 1)):
            return False
    return True


# -------------------------------------------------------- cumulated moments
def gen_cum(rng, size):
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from contracts.g_spacing import layout
    v = gen_bella(rng, size)
    mp, c = v['multipanel'], v['constraints']
    counts = [(p.n_plies + 1) // 2 if c.sym else p.n_plies
              for p in mp.reduced.panels]
    order = sorted(range(len(counts)), key=lambda i: counts[i])
    n = max(counts) + rng.choice([0, 0, 1])
    rows = layout(rng, [counts[i] for i in order], n, 0)
    pdl = np.array([rows[order.index(i)] for i in range(len(counts))])
    plus = [np.array([[rng.random() for _ in range(3)] for _ in range(k)])
            for k in counts]
    return {'multipanel': mp, 'constraints': c, 'pdl': pdl,
            'mom_areas_plus': plus, 'n_plies_to_optimise': n}


def post_cum(r, multipanel, mom_areas_plus, pdl, n_plies_to_optimise):
    m, n = len(multipanel.reduced.panels), n_plies_to_optimise
    return r[0].shape == (m, n) and r[1].shape == (m, n) \
        and r[2].shape == (m, n) and forall(0, m, lambda i: forall(
            0, n, lambda j: cum(r[0][i, j], pdl[i], mom_areas_plus[i], j, 0)
            and cum(r[1][i, j], pdl[i], mom_areas_plus[i], j, 1)
            and cum(r[2][i, j], pdl[i], mom_areas_plus[i], j, 2)))


def cum(v, row, plus, j, a):
    "sum over the plies of the panel among the first j + 1 plies optimised"
    k = count(0, j + 1, lambda t: row[t] != -1)
    return near(v, total(0, k, lambda t: plus[t][a]))


# ------------------------------------------------------------------- LAYLA
def layla_abs(p, n, sym, a):
    if sym:
        return [abs1, abs2, abs3][a](p, n, True)
    return [abs1, abs2, abs3][a](p, n, False) / 2


def pre_layla(constraints, targets, ply_order, n_plies_in_groups):
    n = targets.n_plies
    g = len(n_plies_in_groups)
    return ite(constraints.sym, len(ply_order) == (n + 1) // 2 and forall(
        0, len(ply_order), lambda k: ply_order[k] == k),
        ok_order(ply_order, n, False)) and g > 0 and total(
            0, g, lambda k: n_plies_in_groups[k]) == len(ply_order)


def post_layla(r, constraints, targets, ply_order):
    n = targets.n_plies
    a = r[0]
    if constraints.sym:
        return a.shape[0] == (n + 1) // 2 and a.shape[1] == 3 and forall(
            0, (n + 1) // 2, lambda k: near(a[k, 0], abs1(k, n, True))
            and near(a[k, 1], up2(k, n, True))
            and near(a[k, 2], up3(k, n, True)))
    return signed_asym(a, ply_order, n)


def post_layla_cum(r, constraints, targets, ply_order):
    n = targets.n_plies
    a = r[1]
    m = (n + 1) // 2 if constraints.sym else n
    return a.shape == (m, 3) and all(
        near(a[j, x], sum(layla_abs(ply_order[k], n, constraints.sym, x)
                          for k in range(j + 1)))
        for j in range(m) for x in range(3))


def post_layla_groups(r, constraints, targets, ply_order, n_plies_in_groups):
    n = targets.n_plies
    a = r[2]
    g = len(n_plies_in_groups)
    if a.shape != (g, 3):
        return False
    at = 0
    for i in range(g):
        sel = ply_order[at:at + n_plies_in_groups[i]]
        at += n_plies_in_groups[i]
        for x in range(3):
            if not near(a[i, x], sum(layla_abs(p, n, constraints.sym, x)
                                     for p in sel)):
                return False
    return True


def gen_layla(rng, size):
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.ply_order import calc_ply_order
    c = Constraints(sym=rng.random() < .5)
    n = rng.randint(1, 8 * size)
    t = Targets(n_plies=n)
    o = calc_ply_order(c, t)
    left, groups = len(o), []
    while left:
        k = rng.randint(1, min(left, 8))
        groups.append(k)
        left -= k
    return {'constraints': c, 'targets': t, 'ply_order': o,
            'n_plies_in_groups': np.array(groups)}


NONE = Const(None)
NP = Int(1, None, pool=range(1, 25))
CONTRACTS = [
    Contract('calc_mom_of_areas.BELLA', B + 'calc_mom_of_areas', {
        'multipanel': Obj(None, reduced=Obj(None, panels=ObjList(
            'm', 0, PANEL, n_plies=NP))),
        'constraints': Obj(BELLA_C, sym=Bool()),
        'ply_order': ArrList('m', 0, lo=0)}, requires=pre_bella,
        ensures=[post_signed, post_plus], generate=gen_bella),
    Contract('calc_mom_of_areas.BELLA.whole', B + 'calc_mom_of_areas', {
        'multipanel': NONE, 'constraints': NONE, 'ply_order': NONE},
        ensures=whole, generate=gen_bella, mode='bounded'),
    Contract('calc_mom_of_areas2.BELLA', B + 'calc_mom_of_areas2', {
        'multipanel': NONE, 'constraints': NONE, 'mom_areas_plus': NONE,
        'pdl': NONE, 'n_plies_to_optimise': Int(0, 100)}, ensures=post_cum,
        generate=gen_cum, mode='bounded', samples=200),
    Contract('calc_mom_of_areas.LAYLA', L, {
        'constraints': Obj(LAYLA_C, sym=Bool()),
        'targets': Obj(None, n_plies=NP),
        'ply_order': Arr('int', 'o', 0, 0), 'n_plies_in_groups': Arr(
            'int', 'g', 0, 1)}, requires=pre_layla,
        ensures=[post_layla, post_layla_cum, post_layla_groups],
        generate=gen_layla, mode='bounded', samples=400),
]

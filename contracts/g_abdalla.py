"""C07 10% rule of Abdalla in lamination parameter space."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C07"
TEN = 'src.guidelines.ten_percent_rule:'
MOD = 'src.guidelines.ten_percent_rule_Abdalla:'


def half_width(c):
    return 1 - 4 * c.percent_Abdalla


def val_region(constraints, LPs):
    a = half_width(constraints)
    return a ** 2 + a * LPs[1] - 2 * LPs[0] ** 2 + 1e-15 >= 0 \
        and a - LPs[1] + 1e-15 >= 0


def clear(constraints, LPs):
    "not within rounding of the boundary"
    a = half_width(constraints)
    return abs(a ** 2 + a * LPs[1] - 2 * LPs[0] ** 2) > 1e-9 \
        and abs(a - LPs[1]) > 1e-9


def true_distance(LPs, a):
    "distance to the convex region 2 x^2 / a - a <= y <= a"
    x0, y0 = float(LPs[0]), float(LPs[1])
    if 2 * x0 * x0 / a - a <= y0 <= a:
        return 0.
    cand = [max(-a, min(a, x0))]
    best = float(np.hypot(x0 - cand[0], y0 - a))
    # stationary points of (x - x0)^2 + (2 x^2 / a - a - y0)^2
    k = 2 / a
    roots = np.roots([4 * k * k, 0, 2 - 4 * k * (a + y0), -2 * x0])
    xs = [float(r.real) for r in roots if abs(r.imag) < 1e-7
          and -a <= r.real <= a] + [-a, a]
    for x in xs:
        best = min(best, float(np.hypot(x - x0, k * x * x - a - y0)))
    return best


def grid(a, num):
    "largest distance from a boundary point to the next sampled one"
    return 2.1 * 2 * a / (num - 1)


def post_distance(r, LPs, constraints, num):
    if not (constraints.rule_10_percent and constraints.rule_10_Abdalla):
        return r is None
    a = half_width(constraints)
    if val_region(constraints, LPs):
        return r == 0
    d = true_distance(LPs, a)
    return d - 1e-9 <= r <= d + grid(a, num) + 1e-9


def post_pen(r, LPs, constraints):
    return post_distance(r, LPs, constraints, 10000)


def post_pen_mp(r, LPs, constraints):
    return len(r) == len(LPs) and all(
        post_distance(r[k], LPs[k], constraints, 10000)
        for k in range(len(LPs)))


def pre_clear(constraints, LPs):
    return clear(constraints, LPs)


def pre_clear_mp(constraints, LPs):
    return all(clear(constraints, x) for x in LPs)


C = Obj(BELLA_C, rule_10_percent=Const(True), rule_10_Abdalla=Const(True),
        percent_Abdalla=Real(0, .24, pool=[.1, .05, .15, .2]))
COFF = Obj(BELLA_C, rule_10_percent=Bool(), rule_10_Abdalla=Const(False),
           percent_Abdalla=Real(0, .24))
LP = Arr('real', 4, 0, -1, 1)


def edge(rng, size):
    "points near the boundary of the region"
    from src.BELLA.constraints import Constraints
    c = C.sample(type('X', (), {'rng': rng, 'size': size, 'vals': {}})())
    a = half_width(c)
    x = rng.uniform(-1, 1) if rng.random() < .5 else rng.uniform(-a, a)
    y = a if rng.random() < .5 else 2 * x * x / a - a
    return {'LPs': np.array([x, y + rng.choice([-1, 1]) * rng.choice(
        [1e-7, 1e-4, .01, .1, .3]), 0., 0.]), 'constraints': c,
        'num': rng.choice([50, 201, 400])}


CONTRACTS = [
    Contract('is_ten_percent_rule.LPs', TEN + 'is_ten_percent_rule',
             {'constraints': C, 'LPs': LP}, kwargs=('LPs',),
             result=val_region, samples=3000),
    Contract('calc_distance_Abdalla', MOD + 'calc_distance_Abdalla',
             {'LPs': LP, 'constraints': C, 'num': Int(50, 400)},
             requires=pre_clear, ensures=post_distance, mode='bounded',
             samples=300),
    Contract('calc_distance_Abdalla.edge', MOD + 'calc_distance_Abdalla',
             {'LPs': LP, 'constraints': C, 'num': Int(50, 400)},
             requires=pre_clear, ensures=post_distance, mode='bounded',
             generate=edge, samples=300),
    Contract('calc_penalty_10_ss.LPs', TEN + 'calc_penalty_10_ss',
             {'ss': plies(), 'constraints': C, 'LPs': LP}, kwargs=('LPs',),
             requires=pre_clear, ensures=post_pen, mode='bounded',
             samples=12),
    Contract('calc_penalty_10_ss.LPs_mp', TEN + 'calc_penalty_10_ss',
             {'ss': panels(), 'constraints': C,
              'LPs': Mat('real', 'm', 4, 0, 0, -1, 1), 'mp': Const(True)},
             kwargs=('LPs', 'mp'), requires=pre_clear_mp,
             ensures=post_pen_mp, mode='bounded', samples=6, size=3),
]

"""C19 objective functions (src/BELLA/objectives.py,
src/LAYLA_V02/objectives.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C19"
B = 'src.BELLA.objectives:'
L = 'src.LAYLA_V02.objectives:'
PANEL = 'src.BELLA.panels:Panel'


def post_one(r, lampam, lampam_target, lampam_weightings):
    return near(r, total(0, len(lampam), lambda i: lampam_weightings[i] * (
        (lampam[i] - lampam_target[i]) * (lampam[i] - lampam_target[i]))))


def post_each(r, multipanel, lampam, lampam_weightings):
    ps = multipanel.reduced.panels
    return len(r) == len(ps) and forall(0, len(ps), lambda k: near(
        r[k], total(0, 12, lambda i: lampam_weightings[k, i] * (
            (lampam[k, i] - ps[k].lampam_target[i])
            * (lampam[k, i] - ps[k].lampam_target[i])))))


def gen_each(rng, size):
    from src.BELLA.panels import Panel
    from src.BELLA.constraints import Constraints
    c = Constraints()
    m = rng.randint(1, 5)

    def lp(*shape):
        return np.array([rng.uniform(-1, 1) for _ in range(
            int(np.prod(shape)))]).reshape(shape)
    ps = [Panel(k, c, 8, lampam_target=lp(12)) for k in range(m)]
    return {'multipanel': Bag(reduced=Bag(n_panels=m, panels=ps)),
            'lampam': lp(m, 12), 'obj_func_param': None, 'mat': 0,
            'lampam_weightings': abs(lp(m, 12))}


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return repr(self.__dict__)


def post_multi(r, objective, actual_panel_weightings, penalty_diso,
               penalty_contig, penalty_10, penalty_bal_ipo, penalty_oopo,
               penalty_weight, coeff_diso, coeff_contig, coeff_10,
               coeff_bal_ipo, coeff_oopo, coeff_weight):
    return near(r, total(0, len(objective), lambda k:
                actual_panel_weightings[k] * objective[k]
                * (1 + coeff_diso * penalty_diso[k])
                * (1 + coeff_contig * penalty_contig[k])
                * (1 + coeff_10 * penalty_10[k])
                * (1 + coeff_bal_ipo * penalty_bal_ipo[k])
                * (1 + coeff_oopo * penalty_oopo[k])
                * (1 + coeff_weight * penalty_weight[k])))


def post_none(r, objective, actual_panel_weightings):
    return near(r, total(0, len(objective), lambda k:
                actual_panel_weightings[k] * objective[k]))


PENALTIES = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight')


def gen_nones(rng, size):
    m = rng.randint(1, 5)

    def vec(n):
        return np.array([rng.choice([0., 0., .5, 1., 2.5])
                         for _ in range(n)])
    kw = {'objective': [None if rng.random() < .3 else rng.random()
                        for _ in range(m)],
          'actual_panel_weightings': vec(m)}
    for p in PENALTIES:
        if rng.random() < .3:
            v = None
        elif p in ('bal_ipo', 'weight') or rng.random() < .7:
            v = vec(m)
        else:
            v = vec(1)
        if v is not None and m > 1 and v.size > 1 \
                and p not in ('bal_ipo', 'weight') and rng.random() < .3:
            v = list(v)
        kw['penalty_' + p] = v
        kw['coeff_' + p] = rng.choice([0, 1, 2.5])
    return {'kw': kw}


def post_nones(r, kw):
    s = 0.
    obj = kw['objective']
    for k, x in enumerate(obj):
        if x is None:
            continue
        x = x * kw['actual_panel_weightings'][k]
        for p in PENALTIES:
            v = kw['penalty_' + p]
            if v is not None:
                x = x * (1 + kw['coeff_' + p] * float(
                    v[k] if len(v) > 1 else v[0]))
        s += x
    r = float(np.asarray(r).reshape(-1)[0])
    return abs(r - s) <= 1e-9 * max(1, abs(s))


def call_kw(f, kw):
    return f(with_Nones=True, **kw)


def abs_real(x):
    return ite(x >= 0, x, -x)


def distance(l, t, w, kind):
    if kind == 2:
        return total(0, len(w), lambda i: w[i] * (
            (l[i] - t[i]) * (l[i] - t[i])))
    return total(0, len(w), lambda i: w[i] * abs(l[i] - t[i]))


def post_layla(r, lampam, targets, lampam_weightings, parameters):
    return near(r, distance(lampam, targets.lampam, lampam_weightings,
                            parameters.type_obj_func))


def post_layla_mat(r, lampam, targets, lampam_weightings, parameters):
    return len(r) == len(lampam) and forall(0, len(lampam), lambda k: near(
        r[k], distance(lampam[k], targets.lampam, lampam_weightings,
                       parameters.type_obj_func)))


def unknown(parameters):
    return parameters.type_obj_func != 1 and parameters.type_obj_func != 2


def unknown_mat(lampam, parameters):
    return len(lampam) > 0 and unknown(parameters)


def post_ss(r, objective, penalty_10, penalty_bal_ipo, penalty_oopo, coeff_10,
            coeff_bal_ipo, coeff_oopo):
    return len(r) == len(objective) and forall(
        0, len(objective), lambda k: near(
            r[k], objective[k] * (1 + coeff_10 * penalty_10[k])
            * (1 + coeff_bal_ipo * penalty_bal_ipo[k])
            * (1 + coeff_oopo * penalty_oopo[k])))


NONE = Const(None)
V = Arr('real', 'm', 0, 0, 9)
LP = Arr('real', 12, 12, -1, 1)
COEF = Real(0, 20)
LAYLA = {'targets': Obj('src.LAYLA_V02.targets:Targets', lampam=LP),
         'lampam_weightings': Arr('real', 12, 12, 0, 2),
         'constraints': NONE, 'parameters': Obj(
             None, type_obj_func=OneOf(1, 2, 3))}
CONTRACTS = [
    Contract('calc_obj_one_panel', B + 'calc_obj_one_panel', {
        'lampam': Arr('real', 'n', 0, -1, 1),
        'lampam_target': Arr('real', 'n', 0, -1, 1),
        'lampam_weightings': Arr('real', 'n', 0, 0, 2)}, ensures=post_one),
    Contract('calc_obj_each_panel', B + 'calc_obj_each_panel', {
        'multipanel': Obj(None, reduced=Obj(None, n_panels=Dim('m', 0),
                                            panels=ObjList(
            'm', 0, PANEL, lampam_target=LP))),
        'lampam': Mat('real', 'm', 12, 0, 12, -1, 1), 'obj_func_param': NONE,
        'mat': NONE, 'lampam_weightings': Mat('real', 'm', 12, 0, 12, 0, 2)},
        ensures=post_each),
    Contract('calc_obj_multi_panel', B + 'calc_obj_multi_panel', dict(
        [('objective', V), ('actual_panel_weightings', V)]
        + [('penalty_' + p, V) for p in PENALTIES]
        + [('coeff_' + p, COEF) for p in PENALTIES]), ensures=post_multi),
    Contract('calc_obj_multi_panel.none', B + 'calc_obj_multi_panel', {
        'objective': V, 'actual_panel_weightings': V}, ensures=post_none),
    Contract('calc_obj_multi_panel.Nones', B + 'calc_obj_multi_panel', {
        'kw': NONE}, mode='bounded', generate=gen_nones, call=call_kw,
        ensures=post_nones, samples=600),
    Contract('objectives.LAYLA', L + 'objectives', dict(
        [('lampam', LP)] + list(LAYLA.items())), ensures=post_layla,
        raises={'Exception': unknown}),
    Contract('objectives.LAYLA.many', L + 'objectives', dict(
        [('lampam', Mat('real', 'm', 12, 0, 12, -1, 1))]
        + list(LAYLA.items())), ensures=post_layla_mat,
        raises={'Exception': unknown_mat}),
    Contract('calc_obj_multi_ss', L + 'calc_obj_multi_ss', {
        'objective': V, 'penalty_10': V, 'penalty_bal_ipo': V,
        'penalty_oopo': V, 'coeff_10': COEF, 'coeff_bal_ipo': COEF,
        'coeff_oopo': COEF}, ensures=post_ss),
]

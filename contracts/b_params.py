"""C18 panels, targets and parameters (src/BELLA/panels.py, obj_function.py,
parameters.py, src/LAYLA_V02/targets.py, parameters.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C18"
PANEL = 'src.BELLA.panels:Panel'
OBJ = 'src.BELLA.obj_function:ObjFunction'
PB = 'src.BELLA.parameters:Parameters'
PL = 'src.LAYLA_V02.parameters:Parameters'
TG = 'src.LAYLA_V02.targets:Targets'


# -------------------------------------------------------------------- panels
def post_n_plies(new_self, n_plies, constraints):
    p = new_self
    odd = constraints.sym and n_plies % 2 == 1
    return p.n_plies == n_plies and iff(p.has_middle_ply == True, odd) \
        and p.middle_ply_index == ite(odd, (n_plies + 1) // 2, 0)


def bad_n_plies(n_plies):
    return n_plies < 1


def post_panel(new_self, ID, n_plies, constraints, lampam_weightings, area,
               length_x, length_y, weighting):
    p = new_self
    return post_n_plies(p, n_plies, constraints) and p.ID == ID \
        and p.area == ite(length_x != 0 and length_y != 0,
                          length_x * length_y, area) \
        and p.length_x == length_x and p.length_y == length_y \
        and p.weighting == weighting \
        and p.lampam_weightings_ini.shape[0] == 12 \
        and forall(0, 12, lambda i:
                   p.lampam_weightings_ini[i] == lampam_weightings[i])


def bad_panel(n_plies, area, length_x, length_y, weighting,
              lampam_weightings):
    return n_plies < 1 or area < 0 or length_x < 0 or length_y < 0 \
        or weighting < 0 or len(lampam_weightings) != 12 \
        or exists(0, len(lampam_weightings),
                  lambda i: lampam_weightings[i] < 0)


def post_panel_weight(r, self, density_area):
    return near(r, density_area * self.area * self.n_plies)


def zeroed(i, sym, ipo, oopo):
    return (sym and 4 <= i and i < 8) or (ipo and 2 <= i and i < 4) \
        or (oopo and 10 <= i)


def post_target(new_self, self, constraints):
    "targets of the lamination parameters which the requirements set to 0"
    c = constraints
    a, b = new_self.lampam_target, self.lampam_target
    return len(a) == 12 and forall(0, 12, lambda i: a[i] == ite(
        zeroed(i, c.sym, c.bal, c.oopo), 0, b[i]))


def post_target_layla(new_self, self, constraints):
    c = constraints
    a, b = new_self.lampam, self.lampam
    return len(a) == 12 and forall(0, 12, lambda i: a[i] == ite(
        zeroed(i, c.sym, c.ipo, c.oopo), 0, b[i])) and forall(
            0, 12, lambda i: new_self.lampam_initial[i]
            == self.lampam_initial[i])


def quarters(c):
    return {int(x) for x in c.set_of_angles} == {0, 45, -45, 90}


def weights_of(w, c, ipo):
    """weights of the lamination parameters left free by the symmetry, the
    orthotropy requirements and the fibre angles"""
    w = [float(x) for x in w]
    for i in range(12):
        if zeroed(i, c.sym, ipo, c.oopo) \
                or (quarters(c) and i in (3, 7, 11)):
            w[i] = 0.
    return w


def mean_free(w):
    v = [x for x in w if x != 0]
    return sum(v) / len(v) if v else None


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 for x, y in zip(a, b))


def pre_weights(self, constraints):
    return mean_free(weights_of(self.lampam_weightings_ini, constraints,
                                constraints.bal)) is not None


def post_weights(new_self, self, constraints, obj_func_param):
    """out-of-plane orthotropy is a penalty on lamination parameters 11 (and
    12 when other angles than 0, +-45 and 90 are allowed), of weight
    coeff_oopo times the mean weight; the weights sum to 1"""
    c = constraints
    w = weights_of(self.lampam_weightings_ini, c, c.bal)
    m = mean_free(w)
    if c.oopo:
        w[10] = m * obj_func_param.coeff_oopo
        if not quarters(c):
            w[11] = m * obj_func_param.coeff_oopo
    s = sum(w)
    w = [x / s for x in w]
    p = new_self
    return close(p.lampam_weightings, w) and abs(
        p.sum_lampam_weightings - s) <= 1e-9 * max(1, s) \
        and close(p.lampam_weightings_ini, self.lampam_weightings_ini) \
        and close(p.lampam_weightingsA, w[0:4]) \
        and close(p.lampam_weightingsD, w[8:12])


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return repr(self.__dict__)


def constraint(rng, layla=False):
    from src.BELLA.constraints import Constraints as B
    from src.LAYLA_V02.constraints import Constraints as L
    kw = dict(sym=rng.random() < .5, bal=rng.random() < .5,
              oopo=rng.random() < .5, set_of_angles=rng.choice([
                  [0, 45, -45, 90], [0, 45, -45, 90], [0, 90],
                  [0, 30, -30, 45, -45, 60, -60, 90], [30, -30]]))
    if layla:
        return L(ipo=rng.random() < .5, **kw)
    return B(**kw)


def some_weights(rng):
    w = np.array([rng.choice([0, 1, 1, 2, .5]) for _ in range(12)], float)
    return np.ones(12) if rng.random() < .2 else w


def gen_weights(rng, size):
    from src.BELLA.panels import Panel
    c = constraint(rng)
    p = Panel(1, c, 8, lampam_weightings=some_weights(rng))
    return {'self': p, 'constraints': c, 'obj_func_param': Bag(
        coeff_oopo=rng.choice([0, 1, 2, 20, .5]))}


# -------------------------------------------------------- objective function
def kept(new, active, value):
    return new == ite(active, value, 0)


def post_obj(new_self, constraints, coeff_diso, coeff_contig, coeff_10,
             coeff_bal_ipo, coeff_oopo, coeff_spacing, n_modes):
    "the coefficients of the inactive rules are zero"
    f, c = new_self, constraints
    return kept(f.coeff_diso, c.diso, coeff_diso) \
        and kept(f.coeff_contig, c.contig, coeff_contig) \
        and kept(f.coeff_10, c.rule_10_percent, coeff_10) \
        and kept(f.coeff_bal_ipo, c.bal, coeff_bal_ipo) \
        and kept(f.coeff_oopo, c.oopo, coeff_oopo) \
        and kept(f.coeff_spacing, c.pdl_spacing, coeff_spacing) \
        and f.n_modes == n_modes


def bad_obj(constraints, coeff_diso, coeff_contig, coeff_10,
            coeff_bal_ipo, coeff_oopo, coeff_spacing, n_modes):
    c = constraints
    return n_modes < 1 or (c.diso and coeff_diso < 0) \
        or (c.contig and coeff_contig < 0) \
        or (c.rule_10_percent and coeff_10 < 0) \
        or (c.bal and coeff_bal_ipo < 0) or (c.oopo and coeff_oopo < 0) \
        or (c.pdl_spacing and coeff_spacing < 0)


def post_initial(new_self, multipanel):
    p, q = multipanel.panels, multipanel.reduced.panels
    a, b = new_self.panel_weightings_ini, new_self.reduced_panel_weightings
    return len(a) == len(p) and len(b) == len(q) \
        and forall(0, len(p), lambda i: a[i] == p[i].weighting) \
        and forall(0, len(q), lambda i: b[i] == q[i].weighting)


# ---------------------------------------------------------------- parameters
INTS = ('group_size_min', 'group_size_max', 'global_node_limit',
        'local_node_limit', 'local_node_limit_final',
        'global_node_limit_final', 'global_node_limit2', 'local_node_limit2',
        'global_node_limit3', 'local_node_limit3', 'n_ini_ply_drops')


def post_params(new_self, group_size_min, group_size_max, global_node_limit,
                local_node_limit, local_node_limit_final,
                global_node_limit_final, global_node_limit2,
                local_node_limit2, global_node_limit3, local_node_limit3,
                n_ini_ply_drops, p_A, n_D1, n_D2, n_D3, n_plies_ref_panel):
    p = new_self
    return p.group_size_min == group_size_min \
        and p.group_size_max == group_size_max \
        and p.global_node_limit == global_node_limit \
        and p.local_node_limit == local_node_limit \
        and p.local_node_limit_final == local_node_limit_final \
        and p.global_node_limit_final == global_node_limit_final \
        and p.global_node_limit2 == global_node_limit2 \
        and p.local_node_limit2 == local_node_limit2 \
        and p.global_node_limit3 == global_node_limit3 \
        and p.local_node_limit3 == local_node_limit3 \
        and p.n_ini_ply_drops == n_ini_ply_drops and p.p_A == p_A \
        and p.n_D1 == n_D1 and p.n_D2 == n_D2 and p.n_D3 == n_D3 \
        and p.n_plies_ref_panel == n_plies_ref_panel


def bad_params(group_size_min, group_size_max, global_node_limit,
               local_node_limit, local_node_limit_final,
               global_node_limit_final, global_node_limit2,
               local_node_limit2, global_node_limit3, local_node_limit3,
               n_ini_ply_drops, p_A):
    return group_size_min < 1 or group_size_min > group_size_max \
        or global_node_limit < 1 or local_node_limit < 1 \
        or local_node_limit_final < 1 or global_node_limit_final < 1 \
        or global_node_limit2 < 1 or local_node_limit2 < 1 \
        or global_node_limit3 < 1 or local_node_limit3 < 1 \
        or n_ini_ply_drops < 1 or p_A < 0 or p_A > 100


def gen_layla(rng, size):
    c = constraint(rng, True)
    if rng.random() < .5:
        from src.LAYLA_V02.constraints import Constraints as L
        k = rng.randint(2, 6)
        c = L(sym=c.sym, bal=c.bal, ipo=c.ipo, oopo=c.oopo,
              contig=rng.random() < .6, n_contig=k,
              rule_10_percent=rng.random() < .6)
    steps = rng.choice([1, 1, 2, 3])
    lo = rng.choice([1, 3, 5, 6, 6, 6, 0])
    hi = rng.choice([8, np.array([rng.choice([8, 9, 12, 6, 4])
                                  for _ in range(rng.choice([steps, steps,
                                                             4]))])])
    kw = dict(n_outer_step=steps, group_size_min=lo, group_size_max=hi,
              coeff_10=rng.choice([0, 1, 2.5, -1]),
              coeff_bal_ipo=rng.choice([0, 1, 2, 2.5, -1]),
              coeff_oopo=rng.choice([0, 1, 2, 2.5, -1]),
              penalty_10_lampam_switch=rng.random() < .3,
              penalty_10_pc_switch=rng.random() < .3,
              penalty_bal_switch=rng.random() < .3,
              penalty_ipo_switch=rng.random() < .5,
              first_level_sensitivities=some_weights(rng),
              lampam_to_be_optimised=np.array(
                  [rng.choice([0, 1, 1]) for _ in range(12)]),
              p_A=rng.choice([0, 50, 100., 101, -1, 100, 100]))
    for k in ('global_node_limit', 'global_node_limit_p', 'local_node_limit',
              'local_node_limit_final'):
        kw[k] = rng.choice([1, 10, 100, 100, 100, 100, 0]) \
            if rng.random() < .3 else 50
    w = kw['first_level_sensitivities'] * kw['lampam_to_be_optimised']
    if sum(w) and mean_free(weights_of(w, c, c.ipo)) is None:
        return None
    return {'constraints': c, 'kw': kw}


def bad_layla(constraints, kw):
    c, k = constraints, kw
    hi = k['group_size_max']
    small = k['group_size_min'] > (min(hi) if hasattr(hi, 'size') else hi)
    return (c.rule_10_percent and k['coeff_10'] < 0) \
        or (k['penalty_10_pc_switch'] and k['penalty_10_lampam_switch']) \
        or (c.ipo and k['coeff_bal_ipo'] < 0) \
        or (k['penalty_ipo_switch'] and k['penalty_bal_switch']) \
        or (c.oopo and k['coeff_oopo'] < 0) \
        or not 0 <= k['p_A'] <= 100 or k['group_size_min'] < 1 \
        or k['group_size_min'] < c.n_contig or small \
        or (hasattr(hi, 'size') and hi.size < k['n_outer_step']) \
        or any(k[x] < 1 for x in (
            'n_outer_step', 'global_node_limit', 'global_node_limit_p',
            'local_node_limit', 'local_node_limit_final')) \
        or sum(k['first_level_sensitivities']
               * k['lampam_to_be_optimised']) == 0


def post_layla(r, constraints, kw):
    c, k = constraints, kw
    w = k['first_level_sensitivities'] * k['lampam_to_be_optimised']
    w = w / sum(w)
    final = weights_of(w, c, c.ipo)
    m = mean_free(final)
    if c.ipo and k['penalty_ipo_switch']:
        final[2] = m * k['coeff_bal_ipo']
        if not quarters(c):
            final[3] = m * k['coeff_bal_ipo']
    if c.oopo:
        final[10] = m * k['coeff_oopo']
        if not quarters(c):
            final[11] = m * k['coeff_oopo']
    s = sum(final)
    final = [x / s for x in final]

    def share(v):
        return v if sum(v) == 0 else [x / sum(v) for x in v]
    hi = k['group_size_max']
    hi = list(hi) if hasattr(hi, 'size') else [hi] * k['n_outer_step']
    on = c.rule_10_percent
    return close(r.lampam_weightings_ini, w) \
        and close(r.lampam_weightings_final, final) \
        and close(r.weighting_finalA, share(final[0:4])) \
        and close(r.weighting_finalD, share(final[8:12])) \
        and list(r.group_size_max) == hi \
        and r.group_size_min == k['group_size_min'] \
        and r.coeff_10 == (k['coeff_10'] if on else 0) \
        and r.coeff_bal_ipo == (k['coeff_bal_ipo'] if c.ipo else 0) \
        and r.coeff_oopo == (k['coeff_oopo'] if c.oopo else 0) \
        and r.penalty_10_pc_switch == (on and k['penalty_10_pc_switch']) \
        and r.penalty_10_lampam_switch == (
            on and k['penalty_10_lampam_switch']) \
        and r.penalty_bal_switch == (c.bal and k['penalty_bal_switch']) \
        and r.penalty_ipo_switch == (c.ipo and k['penalty_ipo_switch']) \
        and all(getattr(r, x) == k[x] for x in (
            'n_outer_step', 'global_node_limit', 'global_node_limit_p',
            'local_node_limit', 'local_node_limit_final', 'p_A'))


def call_kw(f, constraints, kw):
    return f(constraints, **kw)


def some_lampam(rng, n):
    n = 12 if rng.random() < .9 else rng.randint(0, 14)
    return np.array([rng.choice([0., 1., 2., .5] * 20 + [-1.])
                     for _ in range(n)], float)


def any_int(*pool):
    return Int(None, None, pool=list(pool))


LIMIT = any_int(0, 1, 2, 10, 100, 5, 5, 5, 5, 5, 5, 5)
FLAGS = ('diso', 'contig', 'rule_10_percent', 'bal', 'oopo', 'pdl_spacing')
COEF = Real(None, None, pool=[-1., 0., .5, 1., 2., 1., 2., 20., 3.])
LP12 = Arr('real', 12, 12, -1, 1)
NONE = Const(None)
CONTRACTS = [
    Contract('set_n_plies', PANEL + '.set_n_plies', {
        'self': Obj(PANEL), 'n_plies': Int(None, None, pool=range(-1, 30)),
        'constraints': Obj(BELLA_C, sym=Bool())}, modifies=('self',),
        ensures=post_n_plies, raises={'PanelDefinitionError': bad_n_plies}),
    Contract('Panel', PANEL + '.__init__', {
        'self': Obj(PANEL), 'ID': Int(0, 99),
        'constraints': Obj(BELLA_C, sym=Bool()),
        'n_plies': Int(None, None, pool=[0, 1, 2, 5, 8, 9, 8, 9]),
        'lampam_target': Const(np.array([])),
        'lampam_weightings': Arr('real', 'w', 0, pool=[0., 1., 2., .5] * 10
                                 + [-1.], sampler=some_lampam),
        'area': COEF, 'length_x': COEF, 'length_y': COEF,
        'N_x': Const(0), 'N_y': Const(0), 'weighting': COEF,
        'neighbour_panels': Const(None)}, modifies=('self',),
        ensures=post_panel, samples=600,
        raises={'PanelDefinitionError': bad_panel}),
    Contract('Panel.calc_weight', PANEL + '.calc_weight', {
        'self': Obj(PANEL, area=Real(0, 9), n_plies=Int(1, 99)),
        'density_area': Real(0, 9)}, ensures=post_panel_weight),
    Contract('filter_target_lampams.BELLA', PANEL + '.filter_target_lampams',
             {'self': Obj(PANEL, lampam_target=LP12),
              'constraints': Obj(BELLA_C, sym=Bool(), bal=Bool(),
                                 oopo=Bool()), 'obj_func_param': NONE},
             modifies=('self',), ensures=post_target),
    Contract('filter_target_lampams.LAYLA', TG + '.filter_target_lampams',
             {'self': Obj(TG, lampam=LP12, lampam_initial=LP12),
              'constraints': Obj(LAYLA_C, sym=Bool(), ipo=Bool(),
                                 oopo=Bool())},
             modifies=('self',), ensures=post_target_layla),
    Contract('filter_lampam_weightings', PANEL + '.filter_lampam_weightings',
             {'self': NONE, 'constraints': NONE, 'obj_func_param': NONE},
             mode='bounded', generate=gen_weights, requires=pre_weights,
             modifies=('self',), ensures=post_weights, samples=600),
    Contract('ObjFunction', OBJ + '.__init__', dict(
        self=Obj(OBJ), constraints=Obj(BELLA_C, **{k: Bool() for k in FLAGS}),
        coeff_diso=COEF, coeff_contig=COEF, coeff_10=COEF,
        coeff_bal_ipo=COEF, coeff_oopo=COEF, coeff_spacing=COEF,
        n_modes=any_int(0, 1, 2, 5, 1, 2, 3, 4)), modifies=('self',),
        ensures=post_obj, samples=1000,
        raises={'ObjFunctionDefinitionError': bad_obj}),
    Contract('set_initial_panel_weightings',
             OBJ + '.set_initial_panel_weightings', {
                 'self': Obj(OBJ), 'multipanel': Obj(
                     None, panels=ObjList('m', 0, PANEL, weighting=Real(0, 9)),
                     reduced=Obj(None, panels=ObjList(
                         'k', 0, PANEL, weighting=Real(0, 9))))},
             modifies=('self',), ensures=post_initial),
    Contract('Parameters.BELLA', PB + '.__init__', dict(
        [('self', Obj(PB)), ('constraints', Obj(BELLA_C)),
         ('group_size_min', any_int(0, 1, 2, 4, 4, 4, 4, 9)),
         ('group_size_max', any_int(4, 8, 12, 12))]
        + [(k, LIMIT) for k in INTS[2:10]] + [
            ('n_ini_ply_drops', LIMIT),
            ('p_A', Real(None, None, pool=[-1., 0., 50., 100., 101., 9.])),
            ('n_D1', any_int(6, 5)), ('n_D2', any_int(6, 10)),
            ('n_D3', any_int(1, 2)),
            ('repair_membrane_switch', Bool()),
            ('repair_flexural_switch', Bool()),
            ('n_plies_ref_panel', Real(1, 1000)),
            ('save_success_rate', Const(False)),
            ('time_limit_group_pdl', Const(1)),
            ('time_limit_all_pdls', Const(100)),
            ('save_buckling', Const(False))]),
        modifies=('self',), ensures=post_params, samples=1500,
        raises={
            'ParametersDefinitionError': bad_params}),
    Contract('Parameters.LAYLA', PL, {'constraints': NONE, 'kw': NONE},
             mode='bounded', generate=gen_layla, call=call_kw,
             modifies=('constraints',), ensures=post_layla,
             raises={'ParametersDefinitionError': bad_layla}, samples=1500),
]

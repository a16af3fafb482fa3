"""C17 design constraints (src/BELLA/constraints.py,
src/LAYLA_V02/constraints.py)."""
import math
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C17"
CB = BELLA_C
CL = LAYLA_C
NAMES = ('percent_0', 'percent_45', 'percent_90', 'percent_135',
         'percent_45_135')


# ------------------------------------------------------------- percentages
def outside(x, top=100):
    return x < 0 or x > top


def bad_bella(percent_0, percent_45, percent_90, percent_135, percent_45_135,
              percent_Abdalla):
    return outside(percent_0) or outside(percent_45) or outside(percent_90) \
        or outside(percent_135) or outside(percent_45_135) \
        or outside(percent_Abdalla, 24.9999999)


def bad_layla(percent_0, percent_45, percent_90, percent_135,
              percent_45_135):
    return outside(percent_0) or outside(percent_45) or outside(percent_90) \
        or outside(percent_135) or outside(percent_45_135)


def zeros(c):
    return c.percent_0 == 0 and c.percent_45 == 0 and c.percent_90 == 0 \
        and c.percent_135 == 0 and c.percent_45_135 == 0 \
        and c.percent_tot == 0


def largest(a, b):
    return ite(a > b, a, b)


def post_percent_bella(new_self, self, percent_0, percent_45, percent_90,
                       percent_135, percent_45_135, percent_Abdalla,
                       combine_45_135, calc_combine_45_135):
    """when the rule is inactive all limits are zero; Abdalla's form only
    keeps its own limit; the usual form limits either the +-45 plies together
    or the +45 and the -45 plies separately"""
    c = new_self
    if not self.rule_10_percent:
        return zeros(c) and c.percent_Abdalla == 0
    if self.rule_10_Abdalla:
        return zeros(c) and near(c.percent_Abdalla, percent_Abdalla / 100)
    if calc_combine_45_135:
        together = not (percent_45 > 1e-15 + percent_45_135 / 2
                        or percent_135 > 1e-15 + percent_45_135 / 2)
    else:
        together = combine_45_135
    ok = c.percent_Abdalla == 0 and near(c.percent_0, percent_0 / 100) \
        and near(c.percent_90, percent_90 / 100)
    if together:
        return ok and c.percent_45 == 0 and c.percent_135 == 0 \
            and near(c.percent_45_135, percent_45_135 / 100) \
            and near(c.percent_tot,
                     (percent_0 + percent_90 + percent_45_135) / 100)
    return ok and c.percent_45_135 == 0 \
        and near(c.percent_45, percent_45 / 100) \
        and near(c.percent_135, percent_135 / 100) \
        and near(c.percent_tot, (percent_0 + percent_90 + percent_45
                                 + percent_135) / 100)


def post_percent_layla(new_self, self, percent_0, percent_45, percent_90,
                       percent_135, percent_45_135):
    c = new_self
    if not self.rule_10_percent:
        return zeros(c)
    both = largest(percent_45_135, percent_45 + percent_135)
    return near(c.percent_0, percent_0 / 100) \
        and near(c.percent_90, percent_90 / 100) \
        and near(c.percent_45, percent_45 / 100) \
        and near(c.percent_135, percent_135 / 100) \
        and near(c.percent_45_135, both / 100) \
        and near(c.percent_tot, (percent_0 + percent_90 + both) / 100)


def percent(top=100):
    return Real(None, None, pool=[-1., 0., 0., 5., 10., 10., 20., 25., 30.,
                                  12.5, top * 1., top + 1.])


# -------------------------------------------------------------- orientations
def bad_angles(a, rule_10):
    a = list(a)
    return len(set(a)) != len(a) or any(x > 90 or x <= -90 for x in a) \
        or any(x != 90 and -x not in a for x in a) \
        or (rule_10 and not {0, 45, -45, 90} <= set(a))


def good_orientations(c, angles):
    """sorted set of angles, the indices of the angles, the data of the
    balance rule (theta, index of theta, index of -theta) and the cosines and
    sines of twice and four times the angles"""
    a = sorted(int(x) for x in angles)
    n = len(a)
    if [int(x) for x in c.set_of_angles] != a or c.n_set_of_angles != n:
        return False
    ind = {x: k for k, x in enumerate(a)}
    if 90 in ind:
        ind[-90] = ind[90]
    if dict(c.ind_angles_dict) != ind or dict(c.angles_dict) != dict(
            enumerate(a)):
        return False
    for x, name in ((0, 'index0'), (45, 'index45'), (90, 'index90'),
                    (-45, 'index135')):
        if hasattr(c, name) != (x in ind) \
                or (x in ind and getattr(c, name) != ind[x]):
            return False
    pos = sorted({abs(x) for x in a})
    if [int(x) for x in c.pos_angles] != pos or dict(
            c.indices_pos_angles_dict) != {x: k for k, x in enumerate(pos)}:
        return False
    bal = [x for x in a if 0 < x < 90]
    if c.angles_bal.shape != (len(bal), 3) or c.angles_bal.tolist() != [
            [x, ind[x], ind[-x]] for x in bal]:
        return False
    if dict(c.indices_bal) != {x: k for k, x in enumerate(bal)}:
        return False
    if list(c.angles_10) != [0, 90, 45, -45] or dict(c.indices_10) != {
            0: 0, 90: 1, 45: 2, -45: 3}:
        return False
    if c.cos_sin.shape != (n, 4):
        return False
    for k, x in enumerate(a):
        t = math.pi * x / 180
        want = (math.cos(2 * t), math.cos(4 * t), math.sin(2 * t),
                math.sin(4 * t))
        if any(abs(u - v) > 1e-9 for u, v in zip(c.cos_sin[k], want)):
            return False
    return True


def post_orient(new_self, set_of_angles):
    return good_orientations(new_self, set_of_angles)


def bad_orient(set_of_angles, rule_10_percent):
    return bad_angles(set_of_angles, rule_10_percent)


def any_angles(rng):
    pool = [0, 90, 45, -45, 15, -15, 30, -30, 60, -60, 75, -75, 5, -5]
    a = [0, 45, -45, 90] if rng.random() < .7 else []
    for x in rng.sample([15, 30, 60, 75, 5, 89, 44], rng.randint(0, 3)):
        a += [x, -x]
    if rng.random() < .15:
        a = rng.sample(pool, rng.randint(1, 8))
    if rng.random() < .1:
        a.append(rng.choice([-90, 91, 135, 180, -91, 90, 0, -45, 7]))
    if not a:
        a = [0]
    rng.shuffle(a)
    return np.array(a) if rng.random() < .5 else a


def gen_orient_of(which):
    def gen(rng, size):
        from importlib import import_module
        m, k = which.split(':')
        return {'self': object.__new__(getattr(import_module(m), k)),
                'set_of_angles': any_angles(rng),
                'rule_10_percent': rng.random() < .5}
    return gen


# ------------------------------------------------------------- whole objects
BOOLS = ('sym', 'bal', 'oopo', 'dam_tol', 'rule_10_percent', 'diso',
         'contig')
MORE = {'BELLA': ('rule_10_Abdalla', 'pdl_spacing', 'covering'),
        'LAYLA': ('ipo',)}


def gen_all(which):
    def gen(rng, size):
        kw = {k: rng.random() < .5 for k in BOOLS + MORE[which]}
        if rng.random() < .1:
            kw[rng.choice(list(kw))] = rng.choice([1, 0, 'True', None])
        kw.update(
            percent_0=rng.choice([0, 10, 12.5]),
            percent_45=rng.choice([0, 5, 10]),
            percent_90=rng.choice([0, 10]),
            percent_135=rng.choice([0, 5, 10]),
            percent_45_135=rng.choice([0, 10, 20, 20]),
            n_contig=rng.choice([1, 2, 3, 4, 5, 6]),
            delta_angle=rng.choice([15, 30, 45, 60, 90]),
            dam_tol_rule=rng.choice([1, 2, 3, 1, 2, 3, 0, 4, '2']),
            set_of_angles=any_angles(rng))
        if which == 'BELLA':
            kw.update(n_covering=rng.choice([0, 1, 2, 0, 1, 2, 3, -1]),
                      min_drop=rng.choice([1, 2, 3, 5, 1, 2, 0, -1, 1.5]),
                      percent_Abdalla=rng.choice([0, 10, 24, 26]),
                      combine_45_135=rng.random() < .5,
                      calc_combine_45_135=rng.random() < .5)
        return {'kw': kw}
    return gen


def build(which):
    def call(f, kw):
        return f(**kw)
    return call


def bad_all_bella(kw):
    k = kw
    return any(not isinstance(k[b], bool) for b in BOOLS + MORE['BELLA']) \
        or (k['dam_tol'] and k['dam_tol_rule'] not in (1, 2, 3)) \
        or k['n_covering'] not in (0, 1, 2) \
        or k['percent_Abdalla'] > 24.9999999 \
        or (k['contig'] and k['n_contig'] == 1) \
        or not isinstance(k['min_drop'], int) or k['min_drop'] < 1 \
        or bad_angles(k['set_of_angles'], k['rule_10_percent'])


def bad_all_layla(kw):
    k = kw
    return any(not isinstance(k[b], bool) for b in BOOLS + MORE['LAYLA']) \
        or (k['dam_tol'] and k['dam_tol_rule'] not in (1, 2, 3)) \
        or (k['contig'] and k['n_contig'] == 1) \
        or bad_angles(k['set_of_angles'], k['rule_10_percent'])


def same_rules(r, k):
    ok = r.sym is k['sym'] and r.bal is k['bal'] and r.oopo is k['oopo'] \
        and r.dam_tol is k['dam_tol'] and r.diso is k['diso'] \
        and r.contig is k['contig'] \
        and r.rule_10_percent is k['rule_10_percent']
    ok = ok and r.dam_tol_rule == (k['dam_tol_rule'] if k['dam_tol'] else 0)
    ok = ok and r.delta_angle == (k['delta_angle'] if k['diso'] else 180)
    if k['contig']:
        ok = ok and r.n_contig == k['n_contig'] == r.n_contig_c
    else:
        ok = ok and r.n_contig == 1 and r.n_contig_c > 1e9
    return ok and good_orientations(r, k['set_of_angles'])


def post_all_bella(r, kw):
    k, n, cov = kw, kw['n_covering'], kw['covering']
    if k['dam_tol']:
        cov = True
        n = max(n, 1) if k['dam_tol_rule'] == 1 else 2
    if cov:
        n = max(n, 1)
    return same_rules(r, k) and r.covering is cov and r.n_covering == n \
        and r.pdl_spacing is k['pdl_spacing'] \
        and r.min_drop == k['min_drop'] and r.ipo is k['bal'] \
        and r.rule_10_Abdalla is k['rule_10_Abdalla'] \
        and post_percent_bella(
            r, r, k['percent_0'], k['percent_45'], k['percent_90'],
            k['percent_135'], k['percent_45_135'], k['percent_Abdalla'],
            k['combine_45_135'], k['calc_combine_45_135'])


def post_all_layla(r, kw):
    k = kw
    ipo = k['ipo'] or k['bal']
    return same_rules(r, k) and r.ipo is ipo \
        and r.laminate_scheme == ('S' if k['sym'] else 'U') \
        and r.laminate_scheme_test == (
            ('SB' if k['sym'] else 'B') if ipo else
            ('S' if k['sym'] else 'U')) \
        and post_percent_layla(
            r, r, k['percent_0'], k['percent_45'], k['percent_90'],
            k['percent_135'], k['percent_45_135'])


# ----------------------------------------- constructor, one rule at a time
def post_covering(new_self, dam_tol, dam_tol_rule, covering, n_covering):
    """damage tolerance activates the covering rule; the covering rule covers
    at least one ply"""
    c = new_self
    if dam_tol:
        return c.dam_tol == True and c.dam_tol_rule == dam_tol_rule \
            and c.covering == True and c.n_covering == ite(
                dam_tol_rule == 1, largest(n_covering, 1), 2)
    return c.dam_tol == False and c.dam_tol_rule == 0 \
        and iff(c.covering == True, covering) and c.n_covering == ite(
            covering, largest(n_covering, 1), n_covering)


def bad_covering(dam_tol, dam_tol_rule, n_covering):
    return (dam_tol and (dam_tol_rule < 1 or dam_tol_rule > 3)) \
        or n_covering < 0 or n_covering > 2


def post_limits(new_self, diso, contig, n_contig, delta_angle, bal, oopo,
                min_drop, sym):
    c = new_self
    return iff(c.diso == True, diso) and iff(c.contig == True, contig) \
        and c.delta_angle == ite(diso, delta_angle, 180) \
        and c.n_contig == ite(contig, n_contig, 1) \
        and (c.n_contig_c == n_contig if contig else c.n_contig_c > 1e9) \
        and iff(c.ipo == True, bal) and iff(c.bal == True, bal) \
        and iff(c.oopo == True, oopo) and iff(c.sym == True, sym) \
        and c.min_drop == min_drop and c.percent_tot == 0


def bad_limits(contig, n_contig, min_drop):
    return (contig and n_contig == 1) or min_drop < 1


OFF = {'rule_10_percent': Const(False), 'rule_10_Abdalla': Const(False),
       'percent_Abdalla': Const(0), 'combine_45_135': Const(True),
       'calc_combine_45_135': Const(True), 'percent_0': Const(0),
       'percent_45': Const(0), 'percent_90': Const(0),
       'percent_135': Const(0), 'percent_45_135': Const(0)}
SET = {'set_of_angles': Const(np.array([0, 45, 90, -45]))}


def init(**kw):
    d = {'self': Obj(CB), 'sym': Const(False), 'bal': Const(False),
         'oopo': Const(False), 'dam_tol': Const(False)}
    d.update(OFF)
    d.update({'diso': Const(False), 'contig': Const(False),
              'n_contig': Const(1), 'delta_angle': Const(45),
              'dam_tol_rule': Const(2)})
    d.update(SET)
    d.update({'min_drop': Const(1), 'pdl_spacing': Const(False),
              'covering': Const(False), 'n_covering': Const(0)})
    d.update(kw)
    return d


P5 = {k: percent() for k in NAMES}
CONTRACTS = [
    Contract('set_percentages.BELLA', CB + '.set_percentages', dict(
        self=Obj(CB, rule_10_percent=Bool(), rule_10_Abdalla=Bool()),
        percent_0=percent(), percent_45=percent(), percent_90=percent(),
        percent_135=percent(), percent_45_135=percent(),
        percent_Abdalla=percent(25), combine_45_135=Bool(),
        calc_combine_45_135=Bool()), modifies=('self',),
        ensures=post_percent_bella, samples=1000,
        raises={'ConstraintDefinitionError': bad_bella}),
    Contract('set_percentages.LAYLA', CL + '.set_percentages', dict(
        self=Obj(CL, rule_10_percent=Bool()),
        percent_0=percent(), percent_45=percent(), percent_90=percent(),
        percent_135=percent(), percent_45_135=percent()), modifies=('self',),
        ensures=post_percent_layla, samples=1000,
        raises={'ConstraintDefinitionError': bad_layla}),
    Contract('Constraints.covering', CB + '.__init__', init(
        dam_tol=Bool(), dam_tol_rule=Int(None, None, pool=range(-1, 6)),
        covering=Bool(), n_covering=Int(None, None, pool=range(-1, 4))),
        modifies=('self',), ensures=post_covering,
        raises={'ConstraintDefinitionError': bad_covering}),
    Contract('Constraints.limits', CB + '.__init__', init(
        sym=Bool(), diso=Bool(), contig=Bool(), bal=Bool(), oopo=Bool(),
        n_contig=Int(1, None, pool=range(1, 7)),
        delta_angle=Int(1, 90), min_drop=Int(None, None, pool=range(-1, 9))),
        modifies=('self',), ensures=post_limits,
        raises={'ConstraintDefinitionError': bad_limits}),
    Contract('set_fibre_orientations.BELLA', CB + '.set_fibre_orientations',
             {'self': Const(None), 'set_of_angles': Const(None),
              'rule_10_percent': Bool()}, mode='bounded',
             generate=gen_orient_of(CB), modifies=('self',),
             ensures=post_orient, raises={'Exception': bad_orient},
             samples=500),
    Contract('set_fibre_orientations.LAYLA', CL + '.set_fibre_orientations',
             {'self': Const(None), 'set_of_angles': Const(None),
              'rule_10_percent': Bool()}, mode='bounded',
             generate=gen_orient_of(CL), modifies=('self',),
             ensures=post_orient, raises={'Exception': bad_orient},
             samples=500),
    Contract('Constraints.BELLA', CB, {'kw': Const(None)}, mode='bounded',
             generate=gen_all('BELLA'), call=build('BELLA'), samples=1500,
             ensures=post_all_bella, raises={'Exception': bad_all_bella}),
    Contract('Constraints.LAYLA', CL, {'kw': Const(None)}, mode='bounded',
             generate=gen_all('LAYLA'), call=build('LAYLA'), samples=1000,
             ensures=post_all_layla, raises={'Exception': bad_all_layla}),
]

"""C10 manufacturability gate (src/guidelines/one_stack.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near,
                     opaque)
from dv.npmodel import opaque as ext
from contracts.common import *
from contracts import g_contig, g_diso, g_bal, g_damtol, g_ten


PROPERTY = "C10"
MOD = 'src.guidelines.one_stack:'


def of(mod, name):
    return [c for c in mod.CONTRACTS if c.name == name][0]


def ipo_violated(ss):
    p = opaque('calc_lampamA', ss, 4)
    return abs(p[2]) > 1e-10 or abs(p[3]) > 1e-10


def rejected(ss, constraints, no_ipo_check, no_bal_check, equality_45_135,
             equality_0_90, n_plies):
    c = constraints
    sk = skipped(c)
    n = len(ss)
    return wrong(n, n_plies) \
        or (c.dam_tol and not g_damtol.val(ss, c)) \
        or (c.bal and not no_bal_check and not g_bal.val(ss, c)) \
        or (c.ipo and not no_ipo_check and ipo_violated(ss)) \
        or (c.diso and not forall(sk, n - sk - 1, lambda i: g_diso.ok(
            ss[i], ss[i + 1], c.delta_angle))) \
        or (c.contig and not g_contig.val_is_contig(ss, c.n_contig)) \
        or (c.rule_10_percent and not g_ten.val_stack(
            c, ss, equality_45_135, equality_0_90))


def wrong(n, n_plies):
    if n_plies is None:
        return False
    return n_plies != n


def post(r):
    return r == 0


F = Real(0, 1, pool=[0, .1, .1, .2, .3, .25])
RULES = dict(bal=Bool(), ipo=Bool(), diso=Bool(), contig=Bool(),
             rule_10_percent=Bool(), rule_10_Abdalla=OneOf(False),
             delta_angle=Real(0, 90, pool=[45, 30, 45]),
             n_contig=OneOf(2, 3, 4, 5, 6), sym=Bool(),
             percent_0=F, percent_45=F, percent_90=F, percent_135=F,
             percent_45_135=F, percent_tot=Real(0, 500, pool=[0, 10]))
RULES = {k: (SBool() if isinstance(v, Bool) else v) for k, v in RULES.items()}
RULES['n_contig'] = Int(2, 6)
RULES['rule_10_Abdalla'] = Const(False)
RULES['sym'] = Const(True)


RULES['ipo'] = OneOf(False, True)


def gate(cls, dam_tol, **kw):
    return Obj(cls, **dict(RULES, dam_tol=Const(dam_tol), **kw))


def ct(name, c, n_plies=Const(None)):
    return Contract(
        'check_lay_up_rules.' + name, MOD + 'check_lay_up_rules',
        {'ss': plies(nmin=2, pool=ANGLES * 4 + [30, -30]), 'constraints': c,
         'no_ipo_check': SBool(), 'no_bal_check': SBool(),
         'equality_45_135': SBool(), 'equality_0_90': SBool(),
         'n_plies': n_plies},
        kwargs=('no_ipo_check', 'no_bal_check', 'equality_45_135',
                'equality_0_90', 'n_plies'),
        modular=[of(g_contig, 'is_contig'), of(g_diso, 'is_diso_ss'),
                 of(g_bal, 'is_balanced'), of(g_damtol, 'is_dam_tol'),
                 of(g_ten, 'is_ten_percent_rule.stack')],
        externals={'ext:src.CLA.lp_functions_2.calc_lampamA':
                   ext('calc_lampamA', 4)},
        abstract=[g_contig.val_is_contig, g_bal.val, g_damtol.val,
                  g_ten.val_stack],
        ensures=post, raises={'Exception': rejected},
        size=4, samples=1000)


CONTRACTS = [
    ct('no_dam_tol', gate(BELLA_C, False, dam_tol_rule=Const(1))),
    ct('count', gate(BELLA_C, False, dam_tol_rule=Const(1)), Int(0, 12)),
    ct('rule1', gate(BELLA_C, True, dam_tol_rule=Const(1))),
    ct('rule2', gate(BELLA_C, True, dam_tol_rule=Const(2))),
    ct('rule3', gate(BELLA_C, True, dam_tol_rule=Const(3))),
    ct('layla1', gate(LAYLA_C, True, n_plies_dam_tol=Const(1))),
    ct('layla2', gate(LAYLA_C, True, n_plies_dam_tol=Const(2))),
]

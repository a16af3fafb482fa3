"""C15 in-plane and out-of-plane orthotropy (src/guidelines/ipo_oopo.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C15"
MOD = 'src.guidelines.ipo_oopo:'


def ipo(lp):
    return (abs(lp[2]) + abs(lp[3])) / 2


def oopo(lp):
    return (abs(lp[10]) + abs(lp[11])) / 2


def at(w, i, n):
    "weight i: a number or one number per panel"
    if hasattr(w, 'shape'):
        return w[i]
    return w


# ---------------------------------------------------------------- penalties
def post_ipo_one(r, lampam, cummul_areas):
    return near(r, cummul_areas * ipo(lampam))


def post_ipo_many(r, lampam, cummul_areas):
    n = lampam.shape[0]
    return r.shape[0] == n and forall(0, n, lambda i: near(
        r[i], cummul_areas * ipo(lampam[i])))


def post_ipo_each(r, lampam, cummul_areas):
    n = lampam.shape[0]
    return r.shape[0] == n and forall(0, n, lambda i: near(
        r[i], cummul_areas[i] * ipo(lampam[i])))


def post_mp(r, lampam, constraints, penalty_ipo_switch, cummul_areas,
            cummul_sec_mom_areas):
    n = lampam.shape[0]
    ion = constraints.ipo and penalty_ipo_switch
    return r[0].shape[0] == n and r[1].shape[0] == n and forall(
        0, n, lambda i: near(
            r[0][i], ite(ion, cummul_areas * ipo(lampam[i]), 0))
        and near(r[1][i], ite(
            constraints.oopo, cummul_sec_mom_areas * oopo(lampam[i]), 0)))


def post_mp_each(r, lampam, constraints, penalty_ipo_switch, cummul_areas,
                 cummul_sec_mom_areas):
    n = lampam.shape[0]
    ion = constraints.ipo and penalty_ipo_switch
    return r[0].shape[0] == n and r[1].shape[0] == n and forall(
        0, n, lambda i: near(
            r[0][i], ite(ion, cummul_areas[i] * ipo(lampam[i]), 0))
        and near(r[1][i], ite(
            constraints.oopo, cummul_sec_mom_areas[i] * oopo(lampam[i]), 0)))


def post_oopo_one(r, lampam, constraints, cummul_sec_mom_areas):
    return near(r, ite(constraints.oopo,
                       cummul_sec_mom_areas * oopo(lampam), 0))


def post_oopo_many(r, lampam, constraints, cummul_sec_mom_areas):
    n = lampam.shape[0]
    return r.shape[0] == n and forall(0, n, lambda i: near(
        r[i], ite(constraints.oopo,
                  cummul_sec_mom_areas * oopo(lampam[i]), 0)))


def post_oopo_each(r, lampam, constraints, cummul_sec_mom_areas):
    n = lampam.shape[0]
    return r.shape[0] == n and forall(0, n, lambda i: near(
        r[i], ite(constraints.oopo,
                  cummul_sec_mom_areas[i] * oopo(lampam[i]), 0)))


def post_oopo_list(r, lampam, constraints, cummul_sec_mom_areas):
    return r.shape[0] == 2 and near(r[0], ite(
        constraints.oopo, cummul_sec_mom_areas * oopo(lampam[0]), 0)) \
        and near(r[1], ite(
            constraints.oopo, cummul_sec_mom_areas * oopo(lampam[1]), 0))


# ---------------------------------------------------- orthotropy parameters
def stiffness(m, lp):
    "in-plane stiffness (11, 12, 22, 66, 16, 26)"
    return (m.U1 + m.U2 * lp[0] + m.U3 * lp[1], m.U4 - m.U3 * lp[1],
            m.U1 - m.U2 * lp[0] + m.U3 * lp[1], m.U5 - m.U3 * lp[1],
            m.U2 * lp[2] / 2 + m.U3 * lp[3],
            m.U2 * lp[2] / 2 - m.U3 * lp[3])


def cofactors(a):
    """minors of the symmetric stiffness matrix giving the compliance terms
    (11, 12, 22, 66, 16, 26) up to the common factor 1 / determinant"""
    a11, a12, a22, a66, a16, a26 = a
    return (a22 * a66 - a26 * a26, a16 * a26 - a12 * a66,
            a11 * a66 - a16 * a16, a11 * a22 - a12 * a12,
            a12 * a26 - a22 * a16, a12 * a16 - a11 * a26)


def regular(material, lampam):
    a = stiffness(material, lampam)
    c = cofactors(a)
    return a[0] > 0 and a[1] > 0 and a[2] > 0 and a[3] > 0 \
        and c[0] > 0 and c[1] != 0 and c[2] > 0 and c[3] > 0


def ratio(x, num, den):
    "x = |num / den|"
    return near(x, abs(num / den))


def first(r, a):
    return ratio(r[0], a[4], a[0]) and ratio(r[1], a[4], a[1]) \
        and ratio(r[2], a[4], a[3]) and ratio(r[3], a[5], a[1]) \
        and ratio(r[4], a[5], a[2]) and ratio(r[5], a[5], a[3])


def second(r, k, c):
    return ratio(r[k], c[4], c[0]) and ratio(r[k + 1], c[4], c[1]) \
        and ratio(r[k + 2], c[4], c[3]) and ratio(r[k + 3], c[5], c[1]) \
        and ratio(r[k + 4], c[5], c[2]) and ratio(r[k + 5], c[5], c[3])


def post_1_6(r, lampam, material):
    return r.shape[0] == 6 and first(r, stiffness(material, lampam))


def post_7_12(r, lampam, material):
    return r.shape[0] == 6 and second(
        r, 0, cofactors(stiffness(material, lampam)))


def post_1_12(r, lampam, material):
    a = stiffness(material, lampam)
    return r.shape[0] == 12 and first(r, a) and second(r, 6, cofactors(a))


def full_compliance(m, lp):
    "membrane compliance of the laminate with coupling (6 x 6 inverse)"
    def mat(p, bend):
        v = stiffness(m, p)
        if not bend:
            v = stiffness(types_u(m), p)
        return np.array([[v[0], v[1], v[4]], [v[1], v[2], v[5]],
                         [v[4], v[5], v[3]]])
    A = mat(lp[0:4], True)
    B = mat(lp[4:8], False) / 4
    D = mat(lp[8:12], True) / 12
    inv = np.linalg.inv(np.block([[A, B], [B, D]]))
    a = inv[0:3, 0:3]
    return (a[0, 0], a[0, 1], a[1, 1], a[2, 2], a[0, 2], a[1, 2])


def types_u(m):
    import types
    return types.SimpleNamespace(U1=0., U2=m.U2, U3=m.U3, U4=0., U5=0.)


def close(x, num, den):
    return abs(x - abs(num / den)) <= 1e-6 * max(1, abs(x))


def second_full(r, k, a):
    return close(r[k], a[4], a[0]) and close(r[k + 1], a[4], a[1]) \
        and close(r[k + 2], a[4], a[3]) and close(r[k + 3], a[5], a[1]) \
        and close(r[k + 4], a[5], a[2]) and close(r[k + 5], a[5], a[3])


def post_full_7_12(r, lampam, material):
    return r.shape == (6,) and second_full(
        r, 0, full_compliance(material, lampam))


def post_full_1_12(r, lampam, material):
    return r.shape == (12,) and first(r, stiffness(material, lampam)) \
        and second_full(r, 6, full_compliance(material, lampam))


def post_param(r, param):
    n = param.shape[0]
    return forall(0, n, lambda k: abs(param[k]) <= r * n + 1e-12) \
        and exists(0, n, lambda k: near(r * n, abs(param[k])))


LP = Arr('real', 12, 0, -1, 1)
LPS = Mat('real', 'm', 12, 0, 12, -1, 1)
W = Real(0, 10)
WS = Arr('real', 'm', 0, 0, 10)
C = Obj(BELLA_C, ipo=SBool(), oopo=SBool())
MAT = Obj('src.BELLA.materials:Material', U1=Real(.1, 100),
          U2=Real(-100, 100), U3=Real(-100, 100), U4=Real(0, 100),
          U5=Real(0, 100))


def laminate(rng, size):
    "lamination parameters of a random laminate, invariants of a material"
    from contracts.stubs import calc_lampam
    from src.BELLA.materials import Material
    ss = np.array([rng.choice([0, 90, 45, -45, 30, -30, 60])
                   for _ in range(rng.randint(1, 3 * size))])
    m = Material(E11=rng.uniform(60., 200.), E22=rng.uniform(3., 30.),
                 G12=rng.uniform(2., 10.), nu12=rng.uniform(.2, .35))
    lp = calc_lampam(ss)
    if not regular(m, lp) or abs(lp[4:8]).max() < 1e-9 \
            or min(abs(x) for x in full_compliance(m, lp)[:4]) < 1e-4:
        return None
    return {'lampam': lp, 'material': m, 'sym': False}


def laminate_sym(rng, size):
    v = laminate(rng, size)
    if v is None:
        return None
    v['sym'] = True
    return v


CONTRACTS = [
    Contract('calc_penalty_ipo.one', MOD + 'calc_penalty_ipo',
             {'lampam': LP, 'cummul_areas': W}, ensures=post_ipo_one),
    Contract('calc_penalty_ipo.many', MOD + 'calc_penalty_ipo',
             {'lampam': LPS, 'cummul_areas': W}, ensures=post_ipo_many),
    Contract('calc_penalty_ipo.each', MOD + 'calc_penalty_ipo',
             {'lampam': LPS, 'cummul_areas': WS}, ensures=post_ipo_each),
    Contract('calc_penalty_ipo_oopo_mp', MOD + 'calc_penalty_ipo_oopo_mp',
             {'lampam': LPS, 'constraints': C, 'penalty_ipo_switch': SBool(),
              'parameters': OneOf(None, Obj(None)), 'cummul_areas': W,
              'cummul_sec_mom_areas': W},
             kwargs=('penalty_ipo_switch', 'parameters', 'cummul_areas',
                     'cummul_sec_mom_areas'), ensures=post_mp),
    Contract('calc_penalty_ipo_oopo_mp.each',
             MOD + 'calc_penalty_ipo_oopo_mp',
             {'lampam': LPS, 'constraints': C, 'penalty_ipo_switch': SBool(),
              'cummul_areas': WS, 'cummul_sec_mom_areas': WS},
             kwargs=('penalty_ipo_switch', 'cummul_areas',
                     'cummul_sec_mom_areas'), ensures=post_mp_each),
    Contract('calc_penalty_oopo_ss.one', MOD + 'calc_penalty_oopo_ss',
             {'lampam': LP, 'constraints': C, 'cummul_sec_mom_areas': W},
             ensures=post_oopo_one),
    Contract('calc_penalty_oopo_ss.many', MOD + 'calc_penalty_oopo_ss',
             {'lampam': LPS, 'constraints': C, 'cummul_sec_mom_areas': W},
             ensures=post_oopo_many),
    Contract('calc_penalty_oopo_ss.each', MOD + 'calc_penalty_oopo_ss',
             {'lampam': LPS, 'constraints': C, 'cummul_sec_mom_areas': WS},
             ensures=post_oopo_each),
    Contract('calc_penalty_oopo_ss.list', MOD + 'calc_penalty_oopo_ss',
             {'lampam': Lst(LP, LP), 'constraints': C,
              'cummul_sec_mom_areas': W}, ensures=post_oopo_list),
    Contract('ipo_param_1_6', MOD + 'ipo_param_1_6',
             {'lampam': LP, 'material': MAT, 'sym': Bool()},
             requires=regular, ensures=post_1_6),
    Contract('ipo_param_7_12', MOD + 'ipo_param_7_12',
             {'lampam': LP, 'material': MAT, 'sym': Const(True)},
             requires=regular, ensures=post_7_12),
    Contract('ipo_param_1_12', MOD + 'ipo_param_1_12',
             {'lampam': LP, 'material': MAT, 'sym': Const(True)},
             requires=regular, ensures=post_1_12),
    Contract('ipo_param_7_12.laminate', MOD + 'ipo_param_7_12',
             {'lampam': LP, 'material': MAT, 'sym': Const(True)},
             requires=regular, ensures=post_7_12, mode='bounded',
             generate=laminate_sym),
    Contract('ipo_param_7_12.coupled', MOD + 'ipo_param_7_12',
             {'lampam': LP, 'material': MAT, 'sym': Const(False)},
             requires=regular, ensures=post_full_7_12, mode='bounded',
             generate=laminate),
    Contract('ipo_param_1_12.coupled', MOD + 'ipo_param_1_12',
             {'lampam': LP, 'material': MAT, 'sym': Const(False)},
             requires=regular, ensures=post_full_1_12, mode='bounded',
             generate=laminate),
    Contract('calc_penalty_ipo_param', MOD + 'calc_penalty_ipo_param',
             {'param': Arr('real', 'n', 1, -9, 9), 'threshold': Real(0, 1)},
             ensures=post_param),
]

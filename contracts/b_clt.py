"""C24 material data (src/BELLA/materials.py, src/LAYLA_V02/materials.py), ply
lamination parameter tables (src/BELLA/lampam_matrix.py) and buckling factors
(src/buckling/buckling.py)."""
import math
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C24"
PI = math.pi
LM = 'src.BELLA.lampam_matrix:'
BK = 'src.buckling.buckling:'
PANEL = 'src.BELLA.panels:Panel'
MP = 'src.BELLA.multipanels:MultiPanel'


# ---------------------------------------------------------------- materials
def bad_material(E11, E22, nu12, G12, density_volume, density_area, ply_t):
    return not (E11 > 0 and E22 > 0 and G12 > 0 and density_volume >= 0
                and density_area >= 0 and ply_t > 0)


def pre_material(E11, E22, nu12, G12, density_volume, density_area, ply_t):
    "the compliance matrix of the lamina is regular"
    return bad_material(E11, E22, nu12, G12, density_volume, density_area,
                        ply_t) or E11 - nu12 * nu12 * E22 > 0


def post_constants(new_self, E11, E22, nu12, G12, ply_t):
    m = new_self
    return m.E11 == E11 and m.E22 == E22 and m.G12 == G12 \
        and m.nu12 == nu12 and m.ply_t == ply_t and near(
            m.nu21 * E11, nu12 * E22)


def post_density(new_self, density_volume, density_area, ply_t):
    m = new_self
    if density_area == 0 and density_volume == 0:
        return near(m.density_area, 300.5) and near(
            m.density_volume * ply_t, m.density_area)
    if density_area == 0:
        return m.density_volume == density_volume and near(
            m.density_area, density_volume * ply_t)
    if density_volume == 0:
        return m.density_area == density_area and near(
            m.density_volume * ply_t, density_area)
    return m.density_area == density_area \
        and m.density_volume == density_volume


def post_stiffness(new_self, E11, E22, nu12, G12):
    m = new_self
    d = 1 - nu12 * m.nu21
    return near(m.Q11 * d, E11) and near(m.Q22 * d, E22) and near(
        m.Q12 * d, nu12 * E22) and m.Q66 == G12


def post_invariants(new_self):
    m = new_self
    a, b, c, d = m.Q11, m.Q22, m.Q12, m.Q66
    return near(8 * m.U1, 3 * a + 3 * b + 2 * c + 4 * d) \
        and near(2 * m.U2, a - b) \
        and near(8 * m.U3, a + b - 2 * c - 4 * d) \
        and near(8 * m.U4, a + b + 6 * c - 4 * d) \
        and near(8 * m.U5, a + b - 2 * c + 4 * d)


def material(cls):
    return {'self': Obj(cls),
            'E11': Real(-1, 2e11, pool=[1.3e11, 9e9, 1.4e11, 0]),
            'E22': Real(-1, 2e10, pool=[9e9, 1e10, 0, -1]),
            'nu12': Real(-.5, .5, pool=[.3, .25, 0]),
            'G12': Real(-1, 1e10, pool=[4e9, 5e9, 0, -1]),
            'density_volume': Real(-1, 2e6, pool=[0, 0, 1.5e6]),
            'density_area': Real(-1, 500, pool=[0, 0, 300.5]),
            'ply_t': Real(-1, 1, pool=[.0002, .0002, .00013, 0])}


# ------------------------------------------- ply lamination parameter tables
def tab_sym(t, mom, cs, n):
    "table of one panel of a symmetric structure"
    m = (n + 1) // 2
    return t.shape[0] == m and t.shape[1] == cs.shape[0] \
        and t.shape[2] == 12 and forall(0, m, lambda k: forall(
            0, cs.shape[0], lambda a: forall(0, 4, lambda q:
                near(t[k, a, q], mom[k, 0] * cs[a, q])
                and t[k, a, 4 + q] == 0
                and near(t[k, a, 8 + q], mom[k, 2] * cs[a, q]))))


def tab_asym(t, mom, cs, n):
    return t.shape[0] == n and t.shape[1] == cs.shape[0] \
        and t.shape[2] == 12 and forall(0, n, lambda k: forall(
            0, cs.shape[0], lambda a: forall(0, 4, lambda q:
                near(t[k, a, q], mom[k, 0] * cs[a, q])
                and near(t[k, a, 4 + q], mom[k, 1] * cs[a, q])
                and near(t[k, a, 8 + q], mom[k, 2] * cs[a, q]))))


def post_tables(r, multipanel, constraints, mom_areas):
    ps = multipanel.reduced.panels
    cs = constraints.cos_sin
    if constraints.sym:
        return len(r) == len(ps) and forall(0, len(ps), lambda i: tab_sym(
            r[i], mom_areas[i], cs, ps[i].n_plies))
    return len(r) == len(ps) and forall(0, len(ps), lambda i: tab_asym(
        r[i], mom_areas[i], cs, ps[i].n_plies))


def structure(rng, size, sym=None):
    from contracts.b_panels import build_panels
    from src.BELLA.multipanels import MultiPanel
    from src.BELLA.ply_order import calc_ply_order
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    for _ in range(30):
        sym = rng.random() < .5 if sym is None else sym
        ps, _, _, c = build_panels(rng, size, sym=sym, even=sym)
        if sym and rng.random() < .5:
            for p in ps:
                p.__init__(p.ID, c, p.n_plies + 1 if p.n_plies % 2 == 0
                           else p.n_plies,
                           neighbour_panels=p.neighbour_panels)
        try:
            mp = MultiPanel(ps)
            mp.from_mp_to_blending_strip(c)
        except Exception:
            continue
        order = calc_ply_order(mp, c)
        return mp, c, order, calc_mom_of_areas(mp, c, order)[1]
    return None


def gen_tables(rng, size):
    s = structure(rng, size)
    if s is None:
        return None
    mp, c, order, mom = s
    return {'multipanel': mp, 'constraints': c, 'mom_areas': mom,
            'ply_order': order}


def lamination_parameters(ss):
    "classical laminate theory, plies from the bottom to the top"
    n = len(ss)
    out = np.zeros(12)
    for k in range(n):
        t = math.radians(ss[k])
        v = np.array([math.cos(2 * t), math.cos(4 * t), math.sin(2 * t),
                      math.sin(4 * t)])
        z0, z1 = 2 * k / n - 1, 2 * (k + 1) / n - 1
        out[:4] += v * (z1 - z0) / 2
        out[4:8] += v * (z1**2 - z0**2) / 2
        out[8:] += v * (z1**3 - z0**3) / 2
    return out


def post_sums(r, multipanel, constraints, ply_order):
    "tables of the plies of any stack add up to its lamination parameters"
    c = constraints
    for p, panel in enumerate(multipanel.reduced.panels):
        n = panel.n_plies
        m = (n + 1) // 2 if c.sym else n
        pick = [(3 * k * k + 5 * k + p) % c.n_set_of_angles
                for k in range(m)]
        ss = [None] * n
        for k in range(m):
            a = int(c.set_of_angles[pick[k]])
            j = int(ply_order[p][k])
            ss[j] = a
            if c.sym:
                ss[n - 1 - j] = a
        got = sum(r[p][k, pick[k]] for k in range(m))
        if np.abs(got - lamination_parameters(ss)).max() > 1e-9:
            return False
    return True


def gen_pdl_tables(rng, size):
    s = structure(rng, size)
    if s is None:
        return None
    from src.BELLA.lampam_matrix import calc_delta_lampams
    mp, c, order, mom = s
    tabs = calc_delta_lampams(mp, c, mom, order)
    n = max(t.shape[0] for t in tabs)
    pdl = np.full((len(tabs), n), -1)
    for p, t in enumerate(tabs):
        keep = sorted(rng.sample(range(n), rng.randint(
            0, t.shape[0]) if rng.random() < .3 else t.shape[0]))
        for k, j in enumerate(keep):
            pdl[p, j] = k
    return {'multipanel': mp, 'constraints': c, 'delta_lampams': tabs,
            'pdl': pdl, 'n_plies_to_optimise': n if rng.random() < .8
            else rng.randint(1, n)}


def post_pdl_tables(r, multipanel, constraints, delta_lampams, pdl,
                    n_plies_to_optimise):
    n, m = n_plies_to_optimise, pdl.shape[0]
    na = constraints.n_set_of_angles
    return r.shape == (m, na, n, 12) and forall(0, m, lambda p: forall(
        0, na, lambda a: forall(0, n, lambda k: forall(
            0, 12, lambda q: r[p, a, k, q] == (
                delta_lampams[p][count(0, k, lambda i: pdl[p, i] != -1),
                                 a, q] if pdl[p, k] != -1 else 0)))))


# ------------------------------------------------------------------ buckling
def pre_mode(length_x, length_y, mode_m, mode_n, N_x, N_y):
    return length_x > 0 and length_y > 0 and mode_m >= 1 and mode_n >= 1 \
        and (N_x != 0 or N_y != 0)


def mode(D11, D12, D22, D66, m, n, N_x, N_y, length_x, length_y):
    "closed form of a simply supported orthotropic plate"
    a = (m / length_x) * (m / length_x)
    b = (n / length_y) * (n / length_y)
    return PI * PI * (D11 * a * a + 2 * (D12 + 2 * D66) * a * b
                      + D22 * b * b) / (a * abs(N_x) + b * abs(N_y))


def post_mode(r, D11, D12, D22, D66, mode_m, mode_n, N_x, N_y, length_x,
              length_y):
    return near(r, mode(D11, D12, D22, D66, mode_m, mode_n, N_x, N_y,
                        length_x, length_y))


def post_margin(r, buckling_factor):
    return near(r, 100 * buckling_factor - 100)


def gen_plate(rng, size):
    from src.BELLA.materials import Material
    mat = Material(E11=rng.uniform(1e11, 2e11), E22=rng.uniform(5e9, 2e10),
                   nu12=rng.uniform(.1, .4), G12=rng.uniform(3e9, 8e9),
                   ply_t=rng.choice([.0002, .00013, .0004]))
    V1 = rng.uniform(-1, 1)
    V2 = rng.uniform(2 * V1 * V1 - 1, 1)
    if rng.random() < .6:
        lp = np.array([rng.uniform(-1, 1) for _ in range(12)])
        lp[8:10] = V1, V2
    else:
        lp = np.array([V1, V2, rng.uniform(-.1, .1), rng.uniform(-.1, .1)])
    Nx, Ny = rng.choice([(1e5, 0), (0, 2e5), (rng.uniform(1, 1e5),
                                              rng.uniform(1, 1e5)),
                         (-1e4, 3e4)])
    return {'lampam': lp, 'mat': mat, 'n_plies': rng.randint(1, 60),
            'N_x': Nx, 'N_y': Ny, 'length_x': rng.choice([.2, 1, 3.5, 8]),
            'length_y': rng.choice([.3, 1, 2]),
            'n_modes': rng.choice([1, 2, 5, 10])}


def factor(D1, D2, mat, n_plies, N_x, N_y, length_x, length_y, n_modes):
    h = n_plies * mat.ply_t
    a = h * h * h / 12
    d11 = a * (mat.U1 + mat.U2 * D1 + mat.U3 * D2)
    d12 = a * (mat.U4 - mat.U3 * D2)
    d22 = a * (mat.U1 - mat.U2 * D1 + mat.U3 * D2)
    d66 = a * (mat.U5 - mat.U3 * D2)
    return min(mode(d11, d12, d22, d66, m, n, N_x, N_y, length_x, length_y)
               for m in range(1, n_modes + 1) for n in range(1, n_modes + 1))


def post_factor(r, lampam, mat, n_plies, N_x, N_y, length_x, length_y,
                n_modes):
    k = 8 if lampam.size == 12 else 0
    return near(r, factor(lampam[k], lampam[k + 1], mat, n_plies, N_x, N_y,
                          length_x, length_y, n_modes))


def gen_stack(rng, size):
    v = gen_plate(rng, size)
    out = {'ss': np.array([rng.choice(ANGLES2)
                           for _ in range(rng.randint(1, 4 * size))])}
    for k in ('N_x', 'N_y', 'length_x', 'length_y', 'mat', 'n_modes'):
        out[k] = v[k]
    return out


def post_stack(r, ss, N_x, N_y, length_x, length_y, mat, n_modes):
    lp = lamination_parameters(ss)
    return near(r, factor(lp[8], lp[9], mat, ss.size, N_x, N_y, length_x,
                          length_y, n_modes))


COS = Mat('real', 'a', 4, 1, 0, -1, 1)
PANELS = ObjList('m', 1, PANEL, n_plies=Int(1, 40),
                 middle_ply_index=Int(0, 20))

CONTRACTS = [
    Contract('Material.' + nm, 'src.%s.materials:Material.__init__' % d,
             material('src.%s.materials:Material' % d),
             requires=pre_material, modifies=('self',),
             ensures=[post_constants, post_density, post_stiffness,
                      post_invariants],
             raises={'MaterialDefinitionError': bad_material}, samples=2000)
    for nm, d in (('BELLA', 'BELLA'), ('LAYLA', 'LAYLA_V02'))
] + [
    Contract('calc_delta_lampams', LM + 'calc_delta_lampams',
             {'multipanel': Lst(), 'constraints': Lst(), 'mom_areas': Lst(),
              'ply_order': Lst()}, generate=gen_tables, mode='bounded',
             ensures=[post_tables, post_sums], samples=400),
    Contract('calc_delta_lampams2', LM + 'calc_delta_lampams2',
             {'multipanel': Lst(), 'constraints': Lst(),
              'delta_lampams': Lst(), 'pdl': Lst(),
              'n_plies_to_optimise': Lst()}, generate=gen_pdl_tables,
             mode='bounded', ensures=post_pdl_tables, samples=60, size=4),
    Contract('buckling_margin', BK + 'buckling_margin',
             {'buckling_factor': Real(-9, 99)}, ensures=post_margin),
    Contract('buckling_factor_m_n', BK + 'buckling_factor_m_n',
             {'D11': Real(0, 1e4), 'D12': Real(-1e3, 1e3),
              'D22': Real(0, 1e4), 'D66': Real(0, 1e4),
              'mode_m': Int(1, 10), 'mode_n': Int(1, 10),
              'N_x': Real(-1e5, 1e5, pool=[0, 1e5]),
              'N_y': Real(-1e5, 1e5, pool=[0, 1e5]),
              'length_x': Real(.1, 9), 'length_y': Real(.1, 9)},
             requires=pre_mode, ensures=post_mode),
    Contract('buckling_factor', BK + 'buckling_factor',
             {k: Lst() for k in ('lampam', 'mat', 'n_plies', 'N_x', 'N_y',
                                 'length_x', 'length_y', 'n_modes')},
             generate=gen_plate, mode='bounded', ensures=post_factor,
             samples=1500),
    Contract('buckling_factor_ss', BK + 'buckling_factor_ss',
             {k: Lst() for k in ('ss', 'N_x', 'N_y', 'length_x', 'length_y',
                                 'mat', 'n_modes')},
             generate=gen_stack, mode='bounded', ensures=post_stack,
             samples=300),
]

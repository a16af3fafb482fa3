"""C27 repair for bending stiffness (src/RELAY/repair_flexural*.py)."""
import types
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts import b_relay as br
from contracts import b_diso as bd


PROPERTY = "C27"
R = 'src.RELAY.'
T = R + 'repair_flexural_tools:'
RULES = [(1, 2), (2, 3)]


def bending(ss, c):
    "out-of-plane lamination parameters from the definition"
    n = len(ss)
    v = [0.0] * 4
    for i, a in enumerate(ss):
        z0, z1 = -1 + 2 * i / n, -1 + 2 * (i + 1) / n
        w = (z1 ** 3 - z0 ** 3) / 2
        cs = br._cs(c, a)
        v = [v[k] + w * cs[k] for k in range(4)]
    return v


def objective(ss, c, coeffs, target):
    v = bending(ss, c)
    return sum(coeffs[k] * (v[k] - target[8 + k]) ** 2 for k in range(4))


# ---------------------------------------------------------------- swaps
def _swapped(r, a, b, first, second, n, c):
    """plies of orientation a at the positions first exchanged with plies of
    orientation b at the positions second (numbered from 1, and their mirror
    images in symmetric laminates)"""
    s, t = [0] * n, [0] * n
    for i in range(n):
        s[i] = t[i] = int(c.set_of_angles[0])
    for p, q in [(first, second)] + (
            [([n + 1 - x for x in first], [n + 1 - x for x in second])]
            if c.sym else []):
        for x in p:
            s[x - 1], t[x - 1] = a, b
        for x in q:
            s[x - 1], t[x - 1] = b, a
    u, v = bending(s, c), bending(t, c)
    return len(r) == 4 and all(br.close(r[k], v[k] - u[k]) for k in range(4))


def post_swap(r, angle_first, angle_second, pos_first, pos_second, n_plies,
              constraints):
    return _swapped(r, angle_first, angle_second, list(pos_first),
                    list(pos_second), n_plies, constraints)


def post_swap_1(r, angle_first, angle_second, n_first_ply, n_second_ply,
                n_plies_group, n_plies, constraints):
    k = n_plies_group
    return _swapped(r, angle_first, angle_second,
                    [n_first_ply + i for i in range(k)],
                    [n_second_ply + i for i in range(k)], n_plies,
                    constraints)


def gen_swap(rng, size):
    c = bd.gen_c(rng)
    n = rng.randrange(6, 30)
    h = n // 2 if c.sym else n
    k = rng.randrange(1, max(2, h // 2))
    a, b = rng.sample([int(x) for x in c.set_of_angles], 2)
    p = sorted(rng.sample(range(1, h + 1), 2 * k))
    if 2 * k > h:
        return None
    sel = set(rng.sample(p, k))
    return {'angle_first': a, 'angle_second': b,
            'pos_first': np.array(sorted(sel), int),
            'pos_second': np.array([x for x in p if x not in sel], int),
            'n_plies': n, 'constraints': c}


def gen_swap_1(rng, size):
    c = bd.gen_c(rng)
    n = rng.randrange(6, 30)
    h = n // 2 if c.sym else n
    k = rng.randrange(1, max(2, h // 2))
    if 2 * k > h:
        return None
    i = rng.randrange(1, h - 2 * k + 2)
    j = rng.randrange(i + k, h - k + 2)
    if rng.random() < .5:
        i, j = j, i
    a, b = rng.sample([int(x) for x in c.set_of_angles], 2)
    return {'angle_first': a, 'angle_second': b, 'n_first_ply': i,
            'n_second_ply': j, 'n_plies_group': k, 'n_plies': n,
            'constraints': c}


# ---------------------------------------------------------------- blocks
def runs(s):
    "(first ply, number of plies, orientation) of the blocks"
    out = []
    for i, a in enumerate(s):
        if out and out[-1][2] == a:
            out[-1][1] += 1
        else:
            out.append([i, 1, int(a)])
    return out


def fits(a, angle, near_, c):
    return a != angle and a not in near_ and (not c.diso or all(
        abs(bd.delta(a, x)) <= c.delta_angle for x in near_))


def designed(ss, c):
    "plies divided into blocks"
    n = len(ss)
    if not c.sym:
        return n
    k = n // 2
    if n % 2:
        while k and ss[k - 1] == ss[n // 2]:
            k -= 1
    return k


def post_blocks(r, ss_ref, n_plies, constraints):
    c, s, n = constraints, [int(a) for a in ss_ref], n_plies
    k = designed(s, c)
    want = runs(s[:k])
    if len(r) != len(want):
        return False
    got = sorted(r, key=lambda b: b.first_ply_pos)
    for j, (b, (i, m, a)) in enumerate(zip(got, want)):
        if (b.first_ply_pos, b.n_block_of_plies, b.angle) != (i, m, a) \
                or b.ID != len(want) - 1 - j:
            return False
        near_ = set(s[x] for x in (i - 1, i + m) if 0 <= x < n)
        if c.sym and n % 2 == 0 and i + m == n // 2:
            near_ = set([s[i - 1]]) if i else set()
        if len(want) > 1 and set(int(x) for x in b.neighbour_angles) \
                != near_:
            return False
        if len(want) > 1 and sorted(int(x) for x in b.possible_angles) \
                != sorted(int(x) for x in c.set_of_angles
                          if fits(int(x), a, near_, c)):
            return False
    d = [b.distance_middle for b in r]
    return all(d[i] >= d[i + 1] for i in range(len(d) - 1)) and all(
        near(b.distance_middle, max(
            1 - 2 * min(x, n - 1 - x) / n for x in (
                b.first_ply_pos, b.first_ply_pos + b.n_block_of_plies - 1)))
        for b in r)


def gen_blocks(rng, size):
    c = bd.gen_c(rng)
    full, _, _ = bd.gen_stack(rng, size, c, False)
    if rng.random() < .05:
        full[:] = full[0]
    if len(full) < 3:
        return None
    return {'ss_ref': full, 'n_plies': len(full), 'constraints': c}


# ---------------------------------------------------------------- repairs
def _plies(s, ss, c):
    "same plies; symmetry, middle ply and outer plies kept"
    n = len(ss)
    if len(s) != n or sorted(s) != sorted(ss):
        return False
    if c.sym and (list(s) != list(s[::-1])
                  or (n % 2 and s[n // 2] != ss[n // 2])):
        return False
    k = bd.n_out(c)
    return all(s[i] == ss[i] and s[n - 1 - i] == ss[n - 1 - i]
               for i in range(k))


def post_plies(r, ss_ini, constraints):
    return len(r) == 2 and _plies(r[0], ss_ini, constraints)


def post_rules(r, ss_ini, constraints):
    "disorientation and contiguity"
    c = constraints
    if c.contig and bd.longest(list(ss_ini)) <= c.n_contig \
            and bd.longest(list(r[0])) > c.n_contig:
        return False
    return bd.rules(r[0], c)


def post_better(r, ss_ini, out_of_plane_coeffs, lampam_target, constraints):
    "not further from the target than the laminate before repair"
    a = objective(r[0], constraints, out_of_plane_coeffs, lampam_target)
    b = objective(ss_ini, constraints, out_of_plane_coeffs, lampam_target)
    return a <= b + 1e-9


def post_exact(r, ss_ini, out_of_plane_coeffs, lampam_target, constraints):
    "a laminate that meets the target is kept"
    c = constraints
    if objective(ss_ini, c, out_of_plane_coeffs, lampam_target) > 1e-12 \
            or not any(out_of_plane_coeffs):
        return True
    return objective(r[0], c, out_of_plane_coeffs, lampam_target) < 1e-9


def post_calls(r):
    return r[1] >= 1


def gen_lam(rng, size, diso):
    for _ in range(60):
        c = bd.gen_c(rng)
        full, _, _ = bd.gen_stack(rng, size, c, False)
        if rng.random() < .03:
            full[:] = full[0]
        if not diso:
            c.diso = c.contig = False
        elif not c.diso and not c.contig:
            continue
        n = len(full)
        if c.sym and n % 2 and full[n // 2] not in (0, 90):
            continue
        if n < 6 or not bd.rules(full, c):
            continue
        return c, full
    return None


def gen_repair(rng, size, diso=True, par=True):
    g = gen_lam(rng, size, diso)
    if g is None:
        return None
    c, full = g
    h = [int(a) for a in full[:len(full) // 2]] if c.sym else \
        [int(a) for a in full]
    rng.shuffle(h)
    m = [int(full[len(full) // 2])] if c.sym and len(full) % 2 else []
    goal = h + m + h[::-1] if c.sym else h
    tgt = np.zeros(12)
    tgt[8:] = bending(goal if rng.random() < .9 else full, c)
    v = {'ss_ini': full, 'out_of_plane_coeffs': np.array(rng.choice(
        [[1, 1, 0, 0], [.25] * 4, [1, 0, 0, 0], [.1, .6, .2, .1]])),
        'lampam_target': tgt, 'constraints': c,
        'parameters': types.SimpleNamespace(
            n_D2=rng.choice([2, 3, 5, 10]), n_D3=rng.choice([1, 2]),
            repair_flexural_switch=True), 'count_obj': True}
    if not par:
        del v['parameters']
    return v


def gen_middle(rng, size):
    "symmetric laminates with a middle ply and many small blocks"
    from src.BELLA.constraints import Constraints
    c = Constraints(sym=True, diso=rng.random() < .5, contig=True,
                    n_contig=rng.choice([2, 2, 3]),
                    delta_angle=rng.choice([45, 60, 90]),
                    set_of_angles=[0, 30, -30, 45, -45, 60, -60, 90])
    st = [int(a) for a in c.set_of_angles]
    pool = st if rng.random() < .5 else rng.sample(st, 3)
    for _ in range(200):
        h = []
        for _ in range(rng.randrange(4, 10)):
            ok = [a for a in pool if not h or (
                a != h[-1] and (not c.diso or abs(
                    bd.delta(a, h[-1])) <= c.delta_angle))]
            if not ok:
                break
            h.append(rng.choice(ok))
        m = rng.choice([0, 90])
        full = np.array(h + [m] + h[::-1], int)
        if len(h) >= 4 and bd.rules(full, c) and designed(full, c):
            break
    else:
        return None
    g = list(h)
    rng.shuffle(g)
    tgt = np.zeros(12)
    tgt[8:] = bending(g + [m] + g[::-1], c)
    return {'ss_ini': full, 'out_of_plane_coeffs': np.array(rng.choice(
        [[1, 1, 0, 0], [.25] * 4, [1, 0, 0, 0], [.1, .6, .2, .1]])),
        'lampam_target': tgt, 'constraints': c, 'count_obj': True}


# ---------------------------------------------------------------- wrapper
def post_repair(r, ss, constraints, out_of_plane_coeffs, parameters,
                multipanel, lampam_target, count_obj):
    c = constraints
    s = r[0] if count_obj else r
    if not parameters.repair_flexural_switch or not any(out_of_plane_coeffs):
        return list(s) == list(ss) and (not count_obj or r[1] == 0)
    return _plies(s, ss, c) and bd.rules(s, c) and post_better(
        (s,), ss, out_of_plane_coeffs, lampam_target, c)


def gen_wrapper(rng, size):
    v = gen_repair(rng, size, rng.random() < .6)
    if v is None or (v['constraints'].contig and bd.longest(
            list(v['ss_ini'])) > v['constraints'].n_contig):
        return None
    p = v['parameters']
    p.repair_flexural_switch = rng.random() < .85
    return {'ss': v['ss_ini'], 'constraints': v['constraints'],
            'out_of_plane_coeffs': v['out_of_plane_coeffs']
            * (0 if rng.random() < .1 else 1), 'parameters': p,
            'multipanel': rng.choice([None, 'structure']),
            'lampam_target': v['lampam_target'],
            'count_obj': rng.random() < .5}


def N(*names):
    return {x: Const(None) for x in names}


P1 = N('ss_ini', 'out_of_plane_coeffs', 'lampam_target', 'constraints',
       'count_obj')
P2 = N('ss_ini', 'out_of_plane_coeffs', 'lampam_target', 'constraints',
       'parameters', 'count_obj')
COMMON = [post_plies, post_better, post_exact, post_calls]


CONTRACTS = [
    Contract('swap', fn=T + 'calc_delta_lampamD_swap', params=N(
        'angle_first', 'angle_second', 'pos_first', 'pos_second', 'n_plies',
        'constraints'), ensures=post_swap, generate=gen_swap,
        mode='bounded'),
    Contract('swap/blocks', fn=T + 'calc_delta_lampamD_swap_1', params=N(
        'angle_first', 'angle_second', 'n_first_ply', 'n_second_ply',
        'n_plies_group', 'n_plies', 'constraints'), ensures=post_swap_1,
        generate=gen_swap_1, mode='bounded'),
    Contract('blocks', fn=T + 'find_list_blocks',
             params=N('ss_ref', 'n_plies', 'constraints'),
             ensures=post_blocks, generate=gen_blocks, mode='bounded'),
    Contract('exchange', fn=R + 'repair_flexural_1:repair_flexural_1',
             params=P1, ensures=COMMON + [post_rules], samples=600,
             generate=lambda g, s: gen_repair(g, s, True, False),
             mode='bounded'),
    Contract('exchange/middle', fn=R + 'repair_flexural_1:repair_flexural_1',
             params=P1, ensures=COMMON + [post_rules], samples=1500,
             generate=gen_middle, mode='bounded'),
    Contract('shift', fn=R + 'repair_flexural_2:repair_flexural_2',
             params=P2, ensures=COMMON + [post_rules], samples=600,
             generate=gen_repair, mode='bounded'),
    Contract('redesign', fn=R + 'repair_flexural_3:repair_flexural_3',
             params=P2, ensures=COMMON, samples=400,
             generate=lambda g, s: gen_repair(g, s, False),
             mode='bounded'),
    Contract('repair', fn=R + 'repair_flexural:repair_flexural', params=N(
        'ss', 'constraints', 'out_of_plane_coeffs', 'parameters',
        'multipanel', 'lampam_target', 'count_obj'), ensures=post_repair,
        generate=gen_wrapper, samples=400, mode='bounded'),
]

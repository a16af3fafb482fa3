"""C23 repair for disorientation and contiguity (src/RELAY/repair_diso_contig*,
repair_from_*, repair_tools, src/divers/sorting)."""
import contextlib
import copy
import io
import itertools
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C23"
R = 'src.RELAY.'
T = R + 'repair_tools:'
D = R + 'repair_diso_contig_tools:'


# ------------------------------------------------------------ angle changes
def absv(x):
    return ite(x >= 0, x, -x)


def post_delta(r, angle1, angle2):
    "smallest rotation between two fibre directions"
    d = absv(angle2 - angle1)
    return r == ite(d <= 90, d, 180 - d)


def post_delta_signed(r, angle1, angle2):
    d = angle2 - angle1
    return -90 < r and r <= 90 and (
        r == d or r == d + 180 or r == d - 180)


def level(i, n):
    return ite(2 * i < n, i, n - 1 - i)


def post_dist_2(r, ind_ply_1, n_plies, ind_ply_2):
    return near(r * n_plies, 2 * absv(
        level(ind_ply_1, n_plies) - level(ind_ply_2, n_plies)))


def post_dist_1(r, ind_ply_1, n_plies):
    return near(r * n_plies, n_plies - 2 * level(ind_ply_1, n_plies))


def post_objective(r, delta_angle, ind_ply_1, ind_ply_2, n_plies, status_bal,
                   coeff_bal_status, coeff_delta_angle, coeff_position):
    d = 2 * absv(level(ind_ply_1, n_plies) - level(ind_ply_2, n_plies))
    return near(180 * n_plies * r,
                - 180 * n_plies * coeff_bal_status * status_bal
                + n_plies * coeff_delta_angle * delta_angle
                + 180 * coeff_position * d)


def pre_2(ind_ply_1, ind_ply_2, n_plies):
    return 0 <= ind_ply_1 and 1 <= n_plies and ind_ply_1 < n_plies and 0 <= ind_ply_2 \
        and ind_ply_2 < n_plies


def pre_1(ind_ply_1, n_plies):
    return 0 <= ind_ply_1 and 1 <= n_plies and ind_ply_1 < n_plies


# --------------------------------------------------------------- sortAccording
def post_sorted(r, A1, A2, new_A1):
    "items listed in A2 first, in the order of A2, the others sorted"
    rest = sorted(x for x in A1 if x not in A2)
    return list(new_A1) == [y for x in A2 for y in A1 if y == x] + rest


def gen_sort(rng, size):
    n = rng.randrange(0, 12)
    pool = list(range(-1, 12)) + [6666]
    A2 = rng.sample(pool, rng.randrange(0, len(pool)))
    return {'A1': [rng.choice(pool) for _ in range(n)], 'A2': A2}


# ------------------------------------------------------------ smallest_row
def post_row(r, permut):
    if not permut:
        return r is None
    return list(r) == list(min(tuple(int(x) for x in p) for p in permut))


def gen_rows(rng, size):
    n, k = rng.randrange(1, 6), rng.randrange(0, 8)
    rows = [rng.sample(range(n), n) for _ in range(k)]
    return {'permut': [np.array(x, int) for x in rows]}


# ------------------------------------------------------------ plies to test
def delta(a, b):
    d = b - a
    return min([d, d + 180, d - 180], key=lambda x: (abs(x), -x))


def post_order(r, adjacent_plies, queue, constraints):
    "directions of the queue, nearest to the adjacent ply first"
    q = sorted(set(int(a) for a in queue))
    if not adjacent_plies:
        return [int(a) for a in r] == q
    a = int(adjacent_plies[0])
    return [int(x) for x in r] == sorted(
        q, key=lambda x: (abs(delta(a, x)), -delta(a, x)))


def gen_order(rng, size):
    c = gen_c(rng)
    st = [int(a) for a in c.set_of_angles]
    return {'adjacent_plies': [rng.choice(st)] if rng.random() < .9 else [],
            'queue': [rng.choice(st) for _ in range(rng.randrange(0, 7))],
            'constraints': c}


# ------------------------------------------------------ plies to be designed
def n_out(c):
    "outer plies that cannot be changed"
    return (2 if two_ply(c) else 1) if c.dam_tol else 0


def post_initialise(r, ss, constraints, from_inside, n_D1):
    c, n = constraints, len(ss)
    k = n_out(c) if from_inside else max(1, n_out(c))
    top = [int(a) for a in ss[:k]]
    bottom = [int(a) for a in ss[n - k:]]
    ind_1, ind_2 = [int(i) for i in r[-2]], [int(i) for i in r[-1]]
    if len(ind_1) != max(0, len(ind_2) - n_D1):
        return False
    if c.sym and not from_inside:
        return len(r) == 3 and [int(a) for a in r[0]] == top \
            and ind_2 == list(range(k, n // 2))
    if c.sym:
        last = n // 2 - 2 + n % 2
        return len(r) == 4 and [int(a) for a in r[0]] == top \
            and [int(a) for a in r[1]] == [ss[n // 2]] * (2 - n % 2) \
            and ind_2 == list(range(k, last + 1))[::-1]
    d = [min(i, n - 1 - i) for i in ind_2]
    if from_inside:
        first = k + (n - 2 * k) // 2
        return len(r) == 5 and [int(a) for a in r[0]] == top \
            and [int(a) for a in r[1]] == [ss[first]] \
            and [int(a) for a in r[2]] == bottom[:k] \
            and sorted(ind_2) == [i for i in range(k, n - k) if i != first] \
            and all(d[i] >= d[i + 1] for i in range(len(d) - 1))
    return len(r) == 4 and [int(a) for a in r[0]] == top \
        and [int(a) for a in r[1]] == bottom \
        and sorted(ind_2) == list(range(k, n - k)) \
        and all(d[i] <= d[i + 1] for i in range(len(d) - 1))


def gen_ini(rng, size):
    c = gen_c(rng)
    v = gen_stack(rng, size, c)
    n = len(v[0])
    if n < 6:
        return None
    return {'ss': v[1], 'constraints': c, 'from_inside': rng.random() < .5,
            'n_D1': rng.randrange(1, 6)}


# ------------------------------------------------------------------ repairs
def is_two(c):
    return bool(c.dam_tol and two_ply(c))


def turns(a, b):
    d = abs(a - b)
    return min(d, 180 - d)


def longest(s):
    return max((len(list(g)) for _, g in itertools.groupby(s)), default=0)


def rules(s, c):
    "disorientation and contiguity, outer plies apart if two-ply"
    s = [int(a) for a in s]
    if is_two(c):
        s = s[1:-1]
    return (not c.diso or all(turns(s[i], s[i + 1]) <= c.delta_angle
                              for i in range(len(s) - 1))) \
        and (not c.contig or longest(s) <= c.n_contig)


def whole(ss, q, c):
    return sorted([int(a) for a in ss if a != 666] + [
        int(a) for a in q] * (2 if c.sym else 1))


def post_plies(r, ss, ply_queue, constraints, n_D1):
    "no ply is lost or invented"
    return len(r[0]) == len(ss) and sorted(
        int(a) for a in r[0]) == whole(ss, ply_queue, constraints)


def post_symmetric(r, ss, ply_queue, constraints, n_D1):
    return not constraints.sym or [int(a) for a in r[0]] == [
        int(a) for a in r[0]][::-1]


def post_rules(r, ss, ply_queue, constraints, n_D1):
    "a repair reported successful satisfies the rules"
    return not any(r[1:]) or rules(r[0], constraints)


def post_outer(r, ss, ply_queue, constraints, n_D1):
    "outer plies of damage tolerant laminates are kept"
    k, n = n_out(constraints), len(ss)
    return all(r[0][i] == ss[i] and r[0][n - 1 - i] == ss[n - 1 - i]
               for i in range(k))


def post_middle(r, ss, ply_queue, constraints, n_D1):
    n = len(ss)
    return not (constraints.sym and n % 2) or r[0][n // 2] == ss[n // 2]


def post_unchanged(r, ss, ply_queue, constraints, n_D1):
    "a symmetric laminate satisfying the rules is returned unchanged"
    c = constraints
    if not c.sym or is_two(c) or 666 in [int(a) for a in ss] \
            or not rules(ss, c):
        return True
    return all(r[1:]) and [int(a) for a in r[0]] == [int(a) for a in ss]


def post_flags(r, ss, ply_queue, constraints, n_D1):
    "inward success implies outward success"
    return len(r) == 3 and (not r[1] or r[2])


def post_core(r, ss, ply_queue, constraints, n_D1):
    """when the innermost plies can all be permuted, the repair fails only if
    no arrangement satisfies the rules"""
    c, n = constraints, len(ss)
    if not c.sym or is_two(c) or any(r[1:]):
        return True
    k = max(1, n_out(c))
    m = n // 2
    if m - k > n_D1 or m - k > 5:
        return True
    top = [int(a) for a in ss[:k]]
    rest = [int(a) for a in ss[k:m] if a != 666] + [int(a) for a in
                                                     ply_queue]
    mid = [int(ss[m])] if n % 2 else []
    return not any(rules(top + list(p) + mid + (top + list(p))[::-1], c)
                   for p in itertools.permutations(rest))


def quiet(f, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args)


def gen_c(rng, sym=None):
    from src.BELLA.constraints import Constraints as Bc
    from src.LAYLA_V02.constraints import Constraints as Lc
    sym = rng.random() < .5 if sym is None else sym
    return (Bc if rng.random() < .7 else Lc)(
        sym=sym, dam_tol=rng.random() < .5, dam_tol_rule=rng.choice([1, 2]),
        diso=rng.random() < .6, contig=rng.random() < .8,
        delta_angle=rng.choice([45, 45, 60, 90]),
        n_contig=rng.choice([2, 3, 4, 5]), set_of_angles=rng.choice(
            [[0, 45, -45, 90], [0, 30, -30, 45, -45, 60, -60, 90]]))


def gen_stack(rng, size, c, holes=True):
    "complete laminate, laminate with plies left open, queue"
    st = [int(a) for a in c.set_of_angles]
    pool = st if rng.random() < .5 else rng.sample(st, 2)
    lo = rng.choice([3, 4, 5, 6, 8])
    n = rng.randrange(lo, lo + 4) * (1 if c.sym else 2)
    h = [rng.choice(pool) for _ in range(n)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(n)
        k = rng.choice([2, 3, 5])
        h[i:i + k] = [h[i]] * len(h[i:i + k])
    mid = []
    if c.sym:
        mid = [rng.choice([0, 90])] if rng.random() < .4 else []
        h = h + mid + h[::-1]
    elif rng.random() < .5:
        h = h[1:]
    full = np.array(h, int)
    ss, q = full.copy(), []
    m, N = len(h) // 2, len(h)
    k = rng.choice([0, 0, 1, 2])
    if holes and k and m - k > 2:
        if c.sym:
            q = [int(a) for a in ss[m - k:m]]
            ss[m - k:m] = 666
            ss[N - m:N - m + k] = 666
        else:
            q = [int(a) for a in ss[m - k:m + k]]
            ss[m - k:m + k] = 666
        rng.shuffle(q)
    return full, ss, q


def gen_repair(rng, size, sym=None, holes=True):
    c = gen_c(rng, sym)
    full, ss, q = gen_stack(rng, size, c, holes)
    if len(full) < 6:
        return None
    return {'ss': ss, 'ply_queue': q, 'constraints': c,
            'n_D1': rng.choice([2, 2, 3, 4])}


def gen_list(rng, size):
    c = gen_c(rng)
    sss, qs = [], []
    for _ in range(rng.randrange(1, 4)):
        _, ss, q = gen_stack(rng, size, c)
        if len(ss) < 6:
            return None
        sss.append(ss)
        qs.append(q)
    return {'ss_list': sss, 'ply_queue_list': qs, 'constraints': c,
            'n_D1': rng.choice([2, 3])}


def post_list(r, ss_list, ply_queue_list, constraints, n_D1):
    "first laminate repaired, else the first one as far as repaired"
    from src.RELAY.repair_diso_contig import repair_diso_contig
    res = [quiet(repair_diso_contig, s.copy(), list(q), constraints, n_D1)
           for s, q in zip(ss_list, ply_queue_list)]
    for i, x in enumerate(res):
        if x[1] or x[2]:
            return [int(a) for a in r[0]] == [int(a) for a in x[0]] \
                and tuple(r[1:]) == (x[1], x[2], i)
    return [int(a) for a in r[0]] == [int(a) for a in res[0][0]] \
        and tuple(r[1:]) == (False, False, 0)


ANGLE = Int(-89, 90, pool=POOL)
PR = {'ss': Const(None), 'ply_queue': Const(None), 'constraints':
      Const(None), 'n_D1': Const(3)}
BASE = [post_plies, post_symmetric, post_rules, post_outer, post_middle]


def repair(name, fn, posts, sym, holes=True, samples=500):
    return Contract(name, fn=R + fn, params=PR, ensures=BASE + posts,
                    modifies=('ply_queue',), call=quiet, samples=samples,
                    generate=lambda g, s: gen_repair(g, s, sym, holes),
                    mode='bounded')


CONTRACTS = [
    Contract('delta', fn=T + 'calc_delta_angle',
             params={'angle1': ANGLE, 'angle2': ANGLE}, ensures=post_delta),
    Contract('delta/signed', fn=T + 'calc_delta_angle_2',
             params={'angle1': ANGLE, 'angle2': ANGLE},
             ensures=post_delta_signed, mode='proof'),
    Contract('distance', fn=T + 'calc_distanciation',
             params={'ind_ply_1': Int(0, 6), 'n_plies': Int(1, 9),
                     'ind_ply_2': Int(0, 6)}, requires=pre_2,
             ensures=post_dist_2),
    Contract('distance/surface', fn=T + 'calc_distanciation',
             params={'ind_ply_1': Int(0, 6), 'n_plies': Int(1, 9)},
             requires=pre_1, ensures=post_dist_1),
    Contract('objective', fn=T + 'objective_repair',
             params={'delta_angle': Int(0, 90), 'ind_ply_1': Int(0, 6),
                     'ind_ply_2': Int(0, 6), 'n_plies': Int(1, 9),
                     'status_bal': Real(-2, 2),
                     'coeff_bal_status': Real(0, 1),
                     'coeff_delta_angle': Real(0, 1),
                     'coeff_position': Real(0, 1)}, requires=pre_2,
             ensures=post_objective),
    Contract('sort', fn='src.divers.sorting:sortAccording',
             params={'A1': Const(None), 'A2': Const(None)},
             ensures=post_sorted, modifies=('A1',), generate=gen_sort,
             mode='bounded'),
    Contract('row', fn=D + 'smallest_row', params={'permut': Const(None)},
             ensures=post_row, generate=gen_rows, mode='bounded'),
    Contract('order', fn=D + 'order_plies_to_test',
             params={'adjacent_plies': Const(None), 'queue': Const(None),
                     'constraints': Const(None)}, ensures=post_order,
             generate=gen_order, mode='bounded'),
    Contract('initialise', fn=D + 'initialise_repair_diso_contig',
             params={'ss': Const(None), 'constraints': Const(None),
                     'from_inside': Const(True), 'n_D1': Const(3)},
             ensures=post_initialise, generate=gen_ini, samples=600,
             mode='bounded'),
    repair('inward/sym', 'repair_from_outside_sym:'
           'repair_diso_contig_from_outside_sym',
           [post_unchanged, post_core], True),
    repair('inward/asym', 'repair_from_outside_asym:'
           'repair_diso_contig_from_outside_asym', [], False),
    repair('outward/sym', 'repair_from_inside_sym:'
           'repair_diso_contig_from_inside_sym', [], True, False),
    repair('outward/asym', 'repair_from_inside_asym:'
           'repair_diso_contig_from_inside_asym', [], False, False),
    repair('repair', 'repair_diso_contig:repair_diso_contig',
           [post_flags, post_unchanged], None, samples=400),
    Contract('repair/list', fn=R + 'repair_diso_contig:'
             'repair_diso_contig_list',
             params={'ss_list': Const(None), 'ply_queue_list': Const(None),
                     'constraints': Const(None), 'n_D1': Const(3)},
             ensures=post_list, modifies=('ply_queue_list',), call=quiet,
             generate=gen_list, samples=150, mode='bounded'),
]

"""C22 repair for balance and the 10% rule (src/RELAY/repair_10_bal.py)."""
import functools
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C22"
R = 'src.RELAY.repair_10_bal:'
SETS = [[0, 45, -45, 90], [0, 30, -30, 45, -45, 60, -60, 90]]


# ------------------------------------------------------ minimum ply counts
def per(constraints):
    "plies described by one entry of the table of minimum counts"
    return 2 if constraints.sym else 1


def post_mini_counts(r, constraints, n_plies):
    "enough plies in each direction"
    c, k = constraints, per(constraints)
    return len(r) == 5 and k * r[0] >= c.percent_0 * n_plies \
        and k * r[1] >= c.percent_90 * n_plies \
        and k * r[2] >= c.percent_45 * n_plies \
        and k * r[3] >= c.percent_135 * n_plies \
        and k * r[4] >= c.percent_45_135 * n_plies


def post_mini_even(r, constraints, n_plies):
    "a balanced laminate takes as many 45 as -45 plies"
    if not constraints.ipo:
        return True
    return r[2] == r[3] and 2 * r[2] >= r[4]


def post_mini_tight(r, constraints, n_plies):
    "no more plies than needed, up to rounding and pairing"
    c, k = constraints, per(constraints)
    a, b, d = c.percent_45, c.percent_135, c.percent_45_135
    if c.ipo:
        top = ite(a >= b, a, b)
        top = ite(2 * top >= d, top, d / 2)
        return k * r[0] < c.percent_0 * n_plies + 2 \
            and k * r[1] < c.percent_90 * n_plies + 2 \
            and k * r[2] < top * n_plies + 4
    return k * r[0] < c.percent_0 * n_plies + 2 \
        and k * r[1] < c.percent_90 * n_plies + 2 \
        and k * r[2] < a * n_plies + 2 and k * r[3] < b * n_plies + 2 \
        and k * r[4] < d * n_plies + 2


def post_mini_whole(r, constraints, n_plies):
    "angled plies come whole: the middle ply is at 0 or 90 degrees"
    return int(r[2]) == r[2] and int(r[3]) == r[3] and int(r[4]) == r[4]


def pct():
    return Real(0, .3, pool=[0, .1, .1, .05, .125, .2])


# ------------------------------------------- in-plane lamination parameters
def _cs(c, angle):
    t = np.deg2rad(float(angle))
    return [np.cos(2 * t), np.cos(4 * t), np.sin(2 * t), np.sin(4 * t)]


def close(a, b):
    return abs(float(a) - float(b)) < 1e-9


def post_opt1(r, n_plies, constraints):
    "change made by a pair of opposite plies"
    c = constraints
    k = (2. if c.sym else 1.) / n_plies
    return r.shape == (len(c.pos_angles), 4) and all(
        close(r[i, q], k * (_cs(c, a)[q] + _cs(c, -a)[q]))
        for i, a in enumerate(c.pos_angles) for q in range(4))


def post_opt3(r, n_plies, constraints):
    "change made by one ply (with its mirror image if symmetric)"
    c = constraints
    k = (2. if c.sym else 1.) / n_plies
    return r.shape == (len(c.set_of_angles), 4) and all(
        close(r[i, q], k * _cs(c, a)[q])
        for i, a in enumerate(c.set_of_angles) for q in range(4))


def post_lampam_queue(r, ss, n_plies, ply_queue, constraints):
    "in-plane lamination parameters of the laminate once filled"
    c = constraints
    left = [a for a in ss if a != 666] + list(ply_queue) * per(c)
    v = np.sum([_cs(c, a) for a in left], axis=0) / n_plies
    return len(r) == 4 and all(close(r[q], v[q]) for q in range(4))


def post_dist(r, lampamA, lampamA_options, constraints):
    "distance left after exchanging direction i for direction j"
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    n = len(lampamA_options)
    return r.shape == (n, n) and all(
        r[i, j] == 1e10 if i == j else close(
            r[i, j], calc_distance_Abdalla(
                lampamA - lampamA_options[i] + lampamA_options[j],
                constraints, num=40))
        for i in range(n) for j in range(n))


def fast(f, *args):
    "coarse discretisation of the boundary of the Abdalla region"
    import src.RELAY.repair_10_bal as m
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    keep = m.calc_distance_Abdalla
    m.calc_distance_Abdalla = functools.partial(calc_distance_Abdalla, num=40)
    try:
        return f(*args)
    finally:
        m.calc_distance_Abdalla = keep


# ------------------------------------------------------- modifiable plies
def depth(i, n):
    return min(i, n - 1 - i)


def post_ind_plies(r, ss, n_plies, ply_queue, constraints, p_A=100):
    c, n = constraints, n_plies
    ind, per_angle = list(r[0]), r[1]
    skip = 0
    if c.dam_tol:
        skip = 2 if two_ply(c) else 1
    lo = max(skip, int(np.floor((1 - p_A / 100) * (n / 2))))
    if c.sym:
        want = set(range(lo, n // 2))
    else:
        want = set(range(lo, n - lo))
    if set(ind) != want or len(ind) != len(want):
        return False
    d = [depth(i, n) for i in ind]
    if any(d[k] < d[k + 1] for k in range(len(d) - 1)):
        return False
    if len(per_angle) != len(c.set_of_angles):
        return False
    for k, a in enumerate(c.set_of_angles):
        exp = [6666] * list(ply_queue).count(a) + [
            i for i in ind if ss[i] == a]
        if list(per_angle[k]) != exp:
            return False
    return True


# ---------------------------------------------- balance and ply counts
def kept(ss, c):
    "plies of the laminate (of its upper half, without middle ply, if sym)"
    return list(ss[:len(ss) // 2]) if c.sym else list(ss)


def final(r, c):
    return [int(a) for a in kept(r[0], c) if a != 666] + [
        int(a) for a in r[1]]


def enough(plies, mini, c):
    n = plies.count
    ok = n(0) >= mini[0] and n(90) >= mini[1] and n(45) >= mini[2] \
        and n(-45) >= mini[3]
    return ok and n(45) + n(-45) >= mini[4]


def balanced(plies):
    return all(a in (0, 90) or plies.count(a) == plies.count(-a)
               for a in plies)


def active(c):
    return c.ipo or c.rule_10_percent


def counts_on(c):
    return c.rule_10_percent and not c.rule_10_Abdalla


def post_size(r, ss_ini, mini_10, constraints):
    "the queue fills the plies left open, mirror images included"
    c = constraints
    ss, q = r
    gaps = int(np.sum(ss == 666))
    return len(ss) == len(ss_ini) and gaps == per(c) * len(q) \
        and all(int(a) in c.ind_angles_dict for a in q)


def post_sym(r, ss_ini, mini_10, constraints):
    ss = r[0]
    return not constraints.sym or bool((ss == ss[::-1]).all())


def post_balance(r, ss_ini, mini_10, constraints):
    return not constraints.ipo or balanced(final(r, constraints))


def post_counts(r, ss_ini, mini_10, constraints):
    return not counts_on(constraints) or enough(
        final(r, constraints), mini_10, constraints)


def middle(ss_ini, c):
    "a middle ply is aligned with the axes"
    ss = [int(a) for a in ss_ini]
    n = len(ss)
    if active(c) and c.sym and n % 2 and ss[n // 2] not in (0, 90):
        ss[n // 2] = 0
    return ss


def post_kept(r, ss_ini, mini_10, constraints):
    "plies not left open are those of the initial laminate"
    ss, m = r[0], middle(ss_ini, constraints)
    return all(ss[i] in (666, m[i]) for i in range(len(m)))


def post_outer(r, ss_ini, mini_10, constraints):
    "only plies at the core of the laminate are left open"
    c, n = constraints, len(ss_ini)
    ss = r[0]
    if c.sym:
        left = [i for i in range(n // 2) if ss[i] == 666]
        return left == list(range(n // 2 - len(left), n // 2))
    left = sorted(i for i in range(n) if ss[i] == 666)
    if not left:
        return True
    return left == list(range(left[0], left[-1] + 1)) \
        and abs(left[0] - (n - 1 - left[-1])) <= 1


def post_fine(r, ss_ini, mini_10, constraints):
    "a laminate satisfying the rules is returned unchanged"
    c = constraints
    m = middle(ss_ini, c)
    h = [int(a) for a in kept(np.array(m), c)]
    if (not c.ipo or balanced(h)) and (
            not counts_on(c) or enough(h, mini_10, c)):
        return list(r[1]) == [] and [int(a) for a in r[0]] == m
    return True


def gen_constraints(rng, abd=None, sym=None, bal=None):
    from src.BELLA.constraints import Constraints
    abd = rng.random() < .3 if abd is None else abd
    sym = rng.random() < .5 if sym is None else sym
    bal = rng.random() < .6 if bal is None else bal
    dt = rng.random() < .4
    comb = rng.random() < .5
    k = rng.choice([0, 5, 10, 10, 12.5])
    c = Constraints(
        sym=sym, bal=bal, rule_10_percent=abd or rng.random() < .8,
        rule_10_Abdalla=abd, percent_Abdalla=rng.choice([5, 10, 15, 20]),
        dam_tol=dt, dam_tol_rule=rng.choice([1, 2]),
        percent_0=rng.choice([0, 10, 10, 20, 7]), percent_90=rng.choice(
            [0, 10, 10, 20, 7]),
        percent_45=0 if comb else k, percent_135=0 if comb else
        rng.choice([k, k, 5]), percent_45_135=rng.choice([10, 20, 25])
        if comb else 0, combine_45_135=comb, calc_combine_45_135=False,
        set_of_angles=rng.choice(SETS))
    return c


def gen_stack(rng, size, c, lo=4):
    n = rng.randrange(lo, lo + 3 * size)
    pool = [int(a) for a in c.set_of_angles]
    if rng.random() < .4:
        pool = rng.sample(pool, rng.choice([1, 2, 3]))
    if rng.random() < .25:
        pool = [a for a in pool if a in (0, 90)] or pool
    h = [rng.choice(pool) for _ in range(n // 2 if c.sym else n)]
    if rng.random() < .3:
        h2 = h[:len(h) // 2]
        h = h2 + [a if a in (0, 90) else -a for a in h2]
        rng.shuffle(h)
    if c.sym:
        mid = [rng.choice([int(a) for a in c.set_of_angles])] \
            if rng.random() < .4 else []
        h = h + mid + h[::-1]
    return np.array(h, int)


def gen_repair(rng, size, abd=None):
    from src.RELAY.repair_10_bal import calc_mini_10
    c = gen_constraints(rng, abd)
    ss = gen_stack(rng, size, c)
    mini = calc_mini_10(c, ss.size)
    if not c.rule_10_percent:
        mini = np.zeros((5,))
    need = sum(int(np.ceil(x)) for x in mini[:4])
    need += max(0, int(np.ceil(mini[4])) - int(np.ceil(mini[2]))
                - int(np.ceil(mini[3])))
    if need > (ss.size // 2 if c.sym else ss.size):
        return None
    return {'ss_ini': ss, 'mini_10': mini, 'constraints': c}


def gen_abdalla(rng, size):
    return gen_repair(rng, size, abd=True)


# ---------------------------------------------- 10% rule of Abdalla
def distance(plies_of, n, c):
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    v = np.sum([_cs(c, a) for a in plies_of], axis=0) / n
    return calc_distance_Abdalla(v, c, num=40)


def whole(ss, q, c):
    return [a for a in ss if a != 666] + list(q) * per(c)


def post_abd_balance(r, ss, ply_queue, constraints):
    return balanced(final(r, constraints))


def post_abd_size(r, ss, ply_queue, constraints):
    c = constraints
    return [i for i in range(len(ss)) if r[0][i] == 666] == [
        i for i in range(len(ss)) if ss[i] == 666] \
        and len(r[1]) == len(ply_queue) and all(
            int(a) in c.ind_angles_dict for a in final(r, c)) \
        and (not c.sym or bool((r[0] == r[0][::-1]).all()))


def post_abd_closer(r, ss, ply_queue, constraints):
    "never farther from the feasible region"
    c, n = constraints, len(ss)
    d0 = distance(whole(ss, ply_queue, c), n, c)
    d1 = distance(whole(r[0], r[1], c), n, c)
    return d1 <= d0 + 1e-9


def post_abd_fine(r, ss, ply_queue, constraints):
    "a laminate within the feasible region is returned unchanged"
    c, n = constraints, len(ss)
    if distance(whole(ss, ply_queue, c), n, c) > 0:
        return True
    return list(r[0]) == list(ss) and list(r[1]) == list(ply_queue)


def frozen(c, n):
    skip = (2 if two_ply(c) else 1) if c.dam_tol else 0
    s = set(range(skip)) | set(range(n - skip, n))
    if c.sym and n % 2:
        s.add(n // 2)
    return s


def post_abd_frozen(r, ss, ply_queue, constraints):
    "outer plies kept for damage tolerance and middle ply"
    return all(r[0][i] == ss[i] for i in frozen(constraints, len(ss)))


def gen_abd(rng, size, bal):
    from src.RELAY.repair_10_bal import repair_10_bal_2, calc_mini_10
    c = gen_constraints(rng, True, bal=bal)
    ss = gen_stack(rng, size, c, lo=6)
    ss, q = repair_10_bal_2(ss, np.zeros((5,)), c)
    n = len(ss)
    if any(ss[i] == 666 for i in frozen(c, n)):
        return None
    return {'ss': ss, 'ply_queue': [int(a) for a in q], 'constraints': c}


# ---------------------------------------------------------------- is_equal
def post_equal(r, ss, ply_queue, ss_ini, sym):
    a = sorted(int(x) for x in whole2(ss, ply_queue, sym))
    same = all(ss[i] == 666 or ss[i] == ss_ini[i] for i in range(len(ss)))
    return bool(r) == (same and a == sorted(int(x) for x in ss_ini))


def whole2(ss, q, sym):
    return [a for a in ss if a != 666] + list(q) * (2 if sym else 1)


def gen_equal(rng, size):
    v = gen_repair(rng, size, abd=False)
    if v is None:
        return None
    c, ss0 = v['constraints'], v['ss_ini']
    if c.sym and len(ss0) % 2:
        ss0 = np.delete(ss0, len(ss0) // 2)
    ss = ss0.copy()
    m = len(ss) // 2
    k = rng.randrange(0, min(3, m) + 1)
    ss[m - k:m + k] = 666
    q = [int(a) for a in (ss0[m - k:m] if c.sym else ss0[m - k:m + k])]
    rng.shuffle(q)
    if q and rng.random() < .3:
        q[0] = rng.choice([0, 45, 90])
    if rng.random() < .3:
        i = rng.randrange(len(ss))
        if ss[i] != 666:
            ss[i] = rng.choice([0, 45, 90])
            if c.sym:
                ss[len(ss) - 1 - i] = ss[i]
    return {'ss': ss, 'ply_queue': q, 'ss_ini': ss0, 'sym': c.sym}


def gen_ind(rng, size):
    v = gen_repair(rng, size, abd=rng.random() < .3)
    if v is None or len(v['ss_ini']) < 6:
        return None
    from src.RELAY.repair_10_bal import repair_10_bal_2
    c = v['constraints']
    if rng.random() < .4:
        from src.LAYLA_V02.constraints import Constraints as L
        c = L(sym=c.sym, ipo=c.ipo, bal=c.ipo, dam_tol=c.dam_tol,
              set_of_angles=[int(a) for a in c.set_of_angles])
        c.n_plies_dam_tol = rng.choice([1, 2])
    ss, q = repair_10_bal_2(v['ss_ini'], v['mini_10'], v['constraints'])
    return {'ss': ss, 'n_plies': len(ss), 'ply_queue': [int(a) for a in q],
            'constraints': c, 'p_A': rng.choice([100, 100, 50, 80, 33])}


def gen_queue(rng, size):
    v = gen_ind(rng, size)
    if v is not None:
        del v['p_A']
    return v


def gen_opt(rng, size):
    return {'n_plies': rng.randrange(1, 60), 'constraints':
            gen_constraints(rng)}


def gen_dist(rng, size, m):
    c = gen_constraints(rng, True)
    import src.RELAY.repair_10_bal as mod
    n = rng.randrange(4, 20)
    f = mod.calc_lampamA_options_1 if m == 1 else mod.calc_lampamA_options_3
    return {'lampamA': np.array([rng.uniform(-1, 1) for _ in range(4)]),
            'lampamA_options': f(n, c), 'constraints': c}


P4 = {'ss_ini': Const(None), 'mini_10': Const(None), 'constraints':
      Const(None)}
PA = {'ss': Const(None), 'ply_queue': Const(None), 'constraints':
      Const(None)}
REP = [post_size, post_sym, post_balance, post_counts, post_kept, post_outer,
       post_fine]

CONTRACTS = [
    Contract('mini/' + ('bal' if ipo else 'free') + ('/sym' if sym else ''),
             fn=R + 'calc_mini_10',
             params={'constraints': Obj(
                 BELLA_C, ipo=Const(ipo), sym=Const(sym), percent_0=pct(),
                 percent_90=pct(), percent_45=pct(), percent_135=pct(),
                 percent_45_135=pct()), 'n_plies': Dim('n', 1)},
             ensures=[post_mini_counts, post_mini_even, post_mini_tight,
                      post_mini_whole],
             mode='proof')
    for ipo in (False, True) for sym in (False, True)
] + [
    Contract('options/pairs', fn=R + 'calc_lampamA_options_1',
             params={'n_plies': Const(None), 'constraints': Const(None)},
             ensures=post_opt1, generate=gen_opt, mode='bounded'),
    Contract('options/plies', fn=R + 'calc_lampamA_options_3',
             params={'n_plies': Const(None), 'constraints': Const(None)},
             ensures=post_opt3, generate=gen_opt, mode='bounded'),
    Contract('lampam', fn=R + 'calc_lampamA_ply_queue',
             params={'ss': Const(None), 'n_plies': Const(None), 'ply_queue':
                     Const(None), 'constraints': Const(None)},
             ensures=post_lampam_queue, generate=gen_queue, mode='bounded'),
    Contract('distance/pairs', fn=R + 'calc_dist_10_options_1',
             params={'lampamA': Const(None), 'lampamA_options': Const(None),
                     'constraints': Const(None)}, ensures=post_dist,
             generate=lambda g, s: gen_dist(g, s, 1), call=fast, samples=40,
             mode='bounded'),
    Contract('distance/plies', fn=R + 'calc_dist_10_options_3',
             params={'lampamA': Const(None), 'lampamA_options': Const(None),
                     'constraints': Const(None)}, ensures=post_dist,
             generate=lambda g, s: gen_dist(g, s, 3), call=fast, samples=30,
             mode='bounded'),
    Contract('modifiable', fn=R + 'calc_ind_plies',
             params={'ss': Const(None), 'n_plies': Const(None), 'ply_queue':
                     Const(None), 'constraints': Const(None), 'p_A':
                     Const(100)},
             ensures=post_ind_plies, generate=gen_ind, mode='bounded'),
    Contract('same', fn=R + 'is_equal',
             params={'ss': Const(None), 'ply_queue': Const(None), 'ss_ini':
                     Const(None), 'sym': Const(True)},
             ensures=post_equal, generate=gen_equal, mode='bounded'),
    Contract('repair/counts', fn=R + 'repair_10_bal_2', params=P4,
             ensures=REP, generate=lambda g, s: gen_repair(g, s, False),
             samples=600, mode='bounded'),
    Contract('repair', fn=R + 'repair_10_bal', params=P4, ensures=[post_size, post_sym, post_balance, post_counts],
             generate=gen_repair, call=fast, samples=150, mode='bounded'),
    Contract('region/balanced', fn=R + 'repair_10_Abdalla_ipo', params=PA,
             ensures=[post_abd_balance, post_abd_size, post_abd_closer,
                      post_abd_fine, post_abd_frozen],
             modifies=('ss', 'ply_queue'),
             generate=lambda g, s: gen_abd(g, s, True), call=fast,
             samples=120, mode='bounded'),
    Contract('region/free', fn=R + 'repair_10_Abdalla_no_ipo', params=PA,
             ensures=[post_abd_size, post_abd_closer, post_abd_fine,
                      post_abd_frozen],
             modifies=('ss', 'ply_queue'),
             generate=lambda g, s: gen_abd(g, s, False), call=fast,
             samples=80, mode='bounded'),
]

"""C26 repair for in-plane stiffness (src/RELAY/repair_membrane*.py)."""
import functools
import types
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts import b_relay as br


PROPERTY = "C26"
R = 'src.RELAY.'
IPO = 'repair_membrane_1_ipo'
FREE = 'repair_membrane_1_no_ipo'
MODS = [R + m for m in (IPO, FREE, IPO + '_Abdalla', FREE + '_Abdalla')]


def fast(f, *args):
    "coarse discretisation of the boundary of the Abdalla region"
    import importlib
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    g = functools.partial(calc_distance_Abdalla, num=40)
    ms = [importlib.import_module(m) for m in MODS]
    ms = [m for m in ms if hasattr(m, 'calc_distance_Abdalla')]
    keep = [m.calc_distance_Abdalla for m in ms]
    for m in ms:
        m.calc_distance_Abdalla = g
    try:
        return f(*args)
    finally:
        for m, k in zip(ms, keep):
            m.calc_distance_Abdalla = k


# ----------------------------------------------------------------- tables
def post_table(r, lampamA, lampamA_options, lampam_target, constraints,
               in_plane_coeffs):
    "one value for each pair of directions exchanged"
    n = len(lampamA_options)
    return r.shape[0] == n and r.shape[1] == n and forall(
        0, n, lambda i: forall(0, n, lambda j: near(r[i, j], 1e10) if i == j
                               else near(r[i, j], total(
                                   0, 4, lambda q: in_plane_coeffs[q] * (
                                       lampamA[q] - lampamA_options[i, q]
                                       + lampamA_options[j, q]
                                       - lampam_target[q]) ** 2))))


def post_count(r, ss, ply_queue, mini_10, sym):
    "plies in each direction beyond those required"
    n = len(ss)
    k = n // 2 if sym else n
    m = len(ply_queue)
    odd = sym and n % 2 == 1
    e0 = count(0, k, lambda i: ss[i] == 0) \
        + count(0, m, lambda i: ply_queue[i] == 0) \
        + (0.5 if odd and ss[n // 2] == 0 else 0)
    e1 = count(0, k, lambda i: ss[i] == 90) \
        + count(0, m, lambda i: ply_queue[i] == 90) \
        + (0.5 if odd and ss[n // 2] == 90 else 0)
    e2 = count(0, k, lambda i: ss[i] == 45) \
        + count(0, m, lambda i: ply_queue[i] == 45)
    e3 = count(0, k, lambda i: ss[i] == -45) \
        + count(0, m, lambda i: ply_queue[i] == -45)
    return len(r) == 5 and near(r[0], e0 - mini_10[0]) \
        and near(r[1], e1 - mini_10[1]) and near(r[2], e2 - mini_10[2]) \
        and near(r[3], e3 - mini_10[3]) and near(r[4], e2 + e3 - mini_10[4])


def oblique_middle(ss, ply_queue, mini_10, sym):
    n = len(ss)
    return sym and n % 2 == 1 and ss[n // 2] != 0 and ss[n // 2] != 90


# ----------------------------------------------------------------- repairs
def lampam(ss, q, c):
    n = len(ss)
    return np.sum([br._cs(c, a) for a in br.whole(ss, q, c)], axis=0) / n


def objective(v, coeffs, target):
    return sum(coeffs[q] * (v[q] - target[q]) ** 2 for q in range(4))


def args(a):
    return (a[0], a[1], a[2] if len(a) == 7 else None, a[-4], a[-3], a[-2],
            a[-1])


def _initial(r, ss, q):
    "the laminate to be improved comes last"
    return len(r) == 4 and len(set(len(x) for x in r)) == 1 \
        and list(r[0][-1]) == list(ss) and list(r[1][-1]) == list(q)


def _data(r, co, tgt, c):
    "lamination parameters and objective values belong to the laminates"
    for s, q, v, o in zip(*r):
        w = lampam(s, q, c)
        if not all(br.close(v[k], w[k]) for k in range(4)) \
                or not br.close(o, objective(w, co, tgt)):
            return False
    return True


def _better(r):
    "each change brings the laminate closer to the target"
    return all(r[3][i] < r[3][i + 1] + 1e-9 for i in range(len(r[3]) - 1))


def fixed(c, n, p_A):
    k = (2 if two_ply(c) else 1) if c.dam_tol else 0
    k = max(k, int(np.floor((1 - p_A / 100) * (n / 2))))
    s = set(range(k)) | set(range(n - k, n))
    if c.sym and n % 2:
        s.add(n // 2)
    return s


def _frozen(r, ss, q0, c, p_A):
    """outer plies, middle ply and ply counts are kept, plies left open stay
    open"""
    n = len(ss)
    keep = fixed(c, n, p_A)
    for s, q in zip(r[0], r[1]):
        if len(s) != n or len(q) != len(q0):
            return False
        if any((s[i] == 666) != (ss[i] == 666) for i in range(n)) \
                or any(s[i] != ss[i] for i in keep):
            return False
        if c.sym and list(s) != list(s[::-1]):
            return False
        if not all(a == 666 or int(a) in c.ind_angles_dict
                   for a in list(s) + list(q)):
            return False
    return True


def counts(s, q, c):
    n = len(s)
    h = [int(a) for a in br.kept(s, c)] + [int(a) for a in q]
    e = [h.count(a) for a in (0, 90, 45, -45)]
    if c.sym and n % 2:
        e[0] += .5 * (s[n // 2] == 0)
        e[1] += .5 * (s[n // 2] == 90)
    return e + [e[2] + e[3]]


def _guidelines(r, mini, c):
    "balance and 10% rule"
    for s, q in zip(r[0], r[1]):
        if c.ipo and not br.balanced(br.final((s, q), c)):
            return False
        if br.counts_on(c):
            e = counts(s, q, c)
            if any(e[k] < mini[k] for k in range(5)):
                return False
        if c.rule_10_percent and c.rule_10_Abdalla:
            if br.distance(br.whole(s, q, c), len(s), c) > 1e-10:
                return False
    return True


def _local(r, mini, co, tgt, c, p_A):
    """no single exchange of a ply that can be changed improves the laminate
    returned and respects the rules (laminates that need not be balanced)"""
    s, q = r[0][0], list(r[1][0])
    n = len(s)
    if c.ipo or r[3][0] < 1e-9:
        return True
    k = fixed(c, n, p_A)
    have = set(int(a) for i, a in enumerate(s) if i not in k and a != 666)
    have |= set(int(a) for a in q)
    step = per(c) / n
    v = lampam(s, q, c)
    e = counts(s, q, c)
    where = {0: [0], 90: [1], 45: [2, 4], -45: [3, 4]}
    for a in have:
        for b in [int(x) for x in c.set_of_angles]:
            if a == b:
                continue
            w = [v[i] + step * (br._cs(c, b)[i] - br._cs(c, a)[i])
                 for i in range(4)]
            if objective(w, co, tgt) > r[3][0] - 1e-6:
                continue
            if br.counts_on(c):
                f = list(e)
                for i in where.get(a, []):
                    f[i] -= 1
                for i in where.get(b, []):
                    f[i] += 1
                if any(f[i] < mini[i] for i in range(5)):
                    continue
            if c.rule_10_percent and c.rule_10_Abdalla:
                from src.guidelines.ten_percent_rule_Abdalla import \
                    calc_distance_Abdalla
                if calc_distance_Abdalla(np.array(w), c, num=40) > 0:
                    continue
            return False
    return True


def per(c):
    return 2 if c.sym else 1


def post_initial(r, ss_ini, ply_queue_ini):
    return _initial(r, ss_ini, ply_queue_ini)


def post_data(r, in_plane_coeffs, lampam_target, constraints):
    return _data(r, in_plane_coeffs, lampam_target, constraints)


def post_better(r):
    return _better(r)


def post_frozen(r, ss_ini, ply_queue_ini, constraints, p_A):
    return _frozen(r, ss_ini, ply_queue_ini, constraints, p_A)


def post_guidelines(r, mini_10, constraints):
    return _guidelines(r, mini_10, constraints)


def post_region(r, constraints):
    return _guidelines(r, None, constraints)


def post_local(r, mini_10, in_plane_coeffs, lampam_target, constraints, p_A):
    return _local(r, mini_10, in_plane_coeffs, lampam_target, constraints,
                  p_A)


def post_local_region(r, in_plane_coeffs, lampam_target, constraints, p_A):
    return _local(r, None, in_plane_coeffs, lampam_target, constraints, p_A)


def gen_repair(rng, size, bal, abd):
    from src.RELAY.repair_10_bal import repair_10_bal_2, calc_mini_10
    c = br.gen_constraints(rng, abd, bal=bal)
    if bal and rng.random() < .7:
        c.rule_10_percent = c.rule_10_percent or rng.random() < .5
    ss = br.gen_stack(rng, size, c, lo=6)
    n = len(ss)
    if n < 6:
        return None
    mini = calc_mini_10(c, n)
    if c.sym and n % 2 and ss[n // 2] not in (0, 90):
        ss[n // 2] = rng.choice([0, 90])
    ss, q = repair_10_bal_2(ss, mini, c)
    q = [int(a) for a in q]
    if int(np.sum(ss == 666)) != len(q) * per(c):
        return None
    tot = br.final((ss, q), c)
    if bal and not br.balanced(tot):
        return None
    if br.counts_on(c) and any(
            counts(ss, q, c)[k] < mini[k] for k in range(5)):
        return None
    if abd and br.distance(br.whole(ss, q, c), n, c) > 0:
        return None
    p_A = rng.choice([100, 100, 80, 50])
    if any(ss[i] == 666 for i in fixed(c, n, p_A)):
        return None
    st = [int(a) for a in c.set_of_angles]
    pool = [rng.choice(st) for _ in range(rng.choice([1, 2, 4]))]
    tgt = np.zeros(12)
    tgt[:4] = np.mean([br._cs(c, a) for a in pool], axis=0)
    v = {'ss_ini': ss, 'ply_queue_ini': q, 'mini_10': mini,
         'in_plane_coeffs': np.array(rng.choice(
             [[1, 1, 0, 0], [.25] * 4, [1, 0, 0, 0], [.1, .6, .2, .1]])),
         'p_A': p_A, 'lampam_target': tgt, 'constraints': c}
    if abd:
        del v['mini_10']
    return v


def gen_retry(rng, size, bal, abd):
    for _ in range(40):
        v = gen_repair(rng, size, bal, abd)
        if v is not None:
            return v
    return None


# ----------------------------------------------------------------- wrapper
def post_switch(r, ss, ply_queue, mini_10, in_plane_coeffs, constraints,
                parameters, lampam_target):
    "the laminate alone when there is nothing to improve"
    c = constraints
    if len(r) != 3:
        return False
    if not parameters.repair_membrane_switch or not any(in_plane_coeffs):
        return len(r[0]) == 1 and list(r[0][0]) == list(ss) \
            and list(r[1][0]) == list(ply_queue) and len(r[2]) == 1 \
            and all(br.close(a, b) for a, b in zip(
                r[2][0], lampam(ss, ply_queue, c)))
    o = [objective(v, in_plane_coeffs, lampam_target) for v in r[2]]
    rr = (r[0], r[1], r[2], o)
    return _initial(rr, ss, ply_queue) and _data(
        rr, in_plane_coeffs, lampam_target, c) and _better(rr) \
        and _frozen(rr, ss, ply_queue, c, parameters.p_A) \
        and _guidelines(rr, mini_10, c) and _local(
            rr, mini_10, in_plane_coeffs, lampam_target, c, parameters.p_A)


def gen_switch(rng, size):
    from src.RELAY.repair_10_bal import calc_mini_10
    v = gen_retry(rng, size, rng.random() < .5, rng.random() < .3)
    if v is None:
        return None
    c = v['constraints']
    co = v['in_plane_coeffs'] * (0 if rng.random() < .15 else 1)
    return {'ss': v['ss_ini'], 'ply_queue': v['ply_queue_ini'],
            'mini_10': v.get('mini_10', calc_mini_10(c, len(v['ss_ini']))),
            'in_plane_coeffs': co, 'constraints': c,
            'parameters': types.SimpleNamespace(
                repair_membrane_switch=rng.random() < .85, p_A=v['p_A']),
            'lampam_target': v['lampam_target']}


def wrapped(f, ss, ply_queue, mini_10, in_plane_coeffs, constraints,
            parameters, lampam_target):
    return fast(functools.partial(f, lampam_target=lampam_target), ss,
                ply_queue, mini_10, in_plane_coeffs, constraints, parameters)


def N(*names):
    return {x: Const(None) for x in names}


OPT = N('lampamA', 'lampamA_options', 'lampam_target', 'constraints',
        'in_plane_coeffs')
FULL = N('ss_ini', 'ply_queue_ini', 'mini_10', 'in_plane_coeffs', 'p_A',
         'lampam_target', 'constraints')
ABD = N('ss_ini', 'ply_queue_ini', 'in_plane_coeffs', 'p_A',
        'lampam_target', 'constraints')
COMMON = [post_initial, post_data, post_better, post_frozen]


CONTRACTS = [
    Contract('options/pairs/%d' % k, fn=R + IPO + ':calc_objA_options_1',
             params={'lampamA': Arr('real', n=4, lo=-1, hi=1),
                     'lampamA_options': Mat('real', rows=k, cols=4, lo=-1,
                                            hi=1),
                     'lampam_target': Arr('real', n=12, lo=-1, hi=1),
                     'constraints': Obj(None, pos_angles=Arr('int', n=k)),
                     'in_plane_coeffs': Arr('real', n=4, lo=0, hi=1)},
             ensures=post_table, samples=40) for k in (3, 4)] + [
    Contract('options/plies/%d' % k, fn=R + FREE + ':calc_objA_options_3',
             params={'lampamA': Arr('real', n=4, lo=-1, hi=1),
                     'lampamA_options': Mat('real', rows=k, cols=4, lo=-1,
                                            hi=1),
                     'lampam_target': Arr('real', n=12, lo=-1, hi=1),
                     'constraints': Obj(None, n_set_of_angles=Const(k)),
                     'in_plane_coeffs': Arr('real', n=4, lo=0, hi=1)},
             ensures=post_table, samples=40) for k in (3, 4)] + [
    Contract('excess/' + w, fn=R + FREE + ':calc_excess_10',
             params={'ss': Arr('int', lo=-89, hi=666, pool=list(POOL) + [666]),
                     'ply_queue': plies('m', is_list=True),
                     'mini_10': Arr('real', n=5, lo=0, hi=5),
                     'sym': Const(w == 'sym')},
             ensures=post_count, raises={'RepairError': oblique_middle},
             samples=100) for w in ('sym', 'asym')] + [
    Contract('balanced', fn=R + IPO + ':repair_membrane_1_ipo', params=FULL,
             ensures=COMMON + [post_guidelines], samples=300,
             generate=lambda g, s: gen_retry(g, s, True, False),
             mode='bounded'),
    Contract('free', fn=R + FREE + ':repair_membrane_1_no_ipo', params=FULL,
             ensures=COMMON + [post_guidelines, post_local], samples=300,
             generate=lambda g, s: gen_retry(g, s, False, False),
             mode='bounded'),
    Contract('region/balanced', fn=R + IPO + '_Abdalla:'
             'repair_membrane_1_ipo_Abdalla', params=ABD, call=fast,
             ensures=COMMON + [post_region], samples=150,
             generate=lambda g, s: gen_retry(g, s, True, True),
             mode='bounded'),
    Contract('region/free', fn=R + FREE + '_Abdalla:'
             'repair_membrane_1_no_ipo_Abdalla', params=ABD, call=fast,
             ensures=COMMON + [post_region, post_local_region], samples=100,
             generate=lambda g, s: gen_retry(g, s, False, True),
             mode='bounded'),
    Contract('repair', fn=R + 'repair_membrane:repair_membrane',
             params=N('ss', 'ply_queue', 'mini_10', 'in_plane_coeffs',
                      'constraints', 'parameters', 'lampam_target'),
             ensures=post_switch, call=wrapped, generate=gen_switch,
             samples=200, mode='bounded'),
]

"""C21 ply drop layouts (src/BELLA/pdl_tools.py, pdl_group.py, pdl_ini.py,
check_ply_drop_rules in src/guidelines/one_stack.py)."""
import os
import random
import tempfile
from unittest import mock
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts.b_strip import gen_strip, incompatible
from contracts.g_spacing import layout, expected
from contracts.b_divide import gen_bella, impossible, grouped


PROPERTY = "C21"
T = 'src.BELLA.pdl_tools:'
I = 'src.BELLA.pdl_ini:'
NONE = Const(None)


def rows(t):
    return [[int(x) for x in row] for row in t]


def kept(row):
    return sum(1 for x in row if x != -1)


def nested(t):
    "every ply of a panel also belongs to the thicker panels"
    return all(a == -1 or b != -1 for p, q in zip(t, t[1:])
               for a, b in zip(p, q))


# ------------------------------------------------------------------- formats
def post_format(r, my_list, n_max):
    return rows(r) == [[-1 if j in drops else j for j in range(n_max)]
                       for drops in my_list]


def gen_format(rng, size):
    n = rng.randint(1, size + 2)
    m = rng.randint(1, size)
    return {'my_list': [rng.sample(range(n), rng.randint(0, n))
                        for _ in range(m)], 'n_max': n}


def post_format2(r, ss):
    return r.shape == ss.shape and forall(
        0, ss.shape[0], lambda i: forall(0, ss.shape[1], lambda j: ite(
            ss[i, j] == -1, r[i, j] == -1,
            r[i, j] == count(0, j, lambda k: ss[i, k] != -1))))


def gen_bounds(rng, size):
    n_max = rng.randint(1, size + 2)
    drops = [rng.randint(0, n_max) for _ in range(rng.randint(1, size))]
    u = sorted(set(drops))
    return {'new_pdl': np.array([[rng.choice([-1, j]) for j in range(n_max)]
                                 for _ in u]),
            'n_ply_drops_unique': np.array(u),
            'indices_unique': {d: i for i, d in enumerate(u)},
            'n_ply_drops': np.array(drops)}


def post_bounds(r, new_pdl, n_ply_drops_unique, n_ply_drops):
    u = [int(x) for x in n_ply_drops_unique]
    return rows(r) == [rows(new_pdl)[u.index(int(d))] for d in n_ply_drops]


# ------------------------------------------------- layouts of the structure
def gen_divided(rng, size):
    "blending strips divided into groups of plies"
    from src.BELLA.divide_panels import divide_panels
    v = gen_bella(rng, size)
    if v is None:
        return None
    mp, par, c = v['multipanel'], v['parameters'], v['constraints']
    if impossible(grouped(mp.n_plies_max, c), par.group_size_min,
                  par.group_size_max):
        return None
    if mp.n_plies_max > 46:
        return None
    c.pdl_spacing = rng.random() < .8
    c.min_drop = rng.randint(1, 4)
    par.time_limit_group_pdl = .001
    divide_panels(mp, par, c)
    v['obj_func_param'] = None
    return v


def seeded(f, *args, **kw):
    random.seed(12345)
    return f(*args, **kw)


def groups_of(mp, c):
    "columns of the ply drop layout that belong to each group"
    red = mp.reduced
    return [(int(a), int(a) + int(n)) for a, n in zip(
        red.n_first_plies, red.n_plies_per_group)]


def good_layout(r, mp, c):
    red = mp.reduced
    t = rows(r)
    n = mp.n_plies_max
    if len(t) != red.n_panels or any(len(row) != n for row in t):
        return False
    if [kept(row) for row in t] != [p.n_plies for p in red.panels]:
        return False
    if not nested(t) or any(x < -1 for row in t for x in row):
        return False
    k = c.n_covering
    for row in t:
        if -1 in row[:k] or -1 in row[n - k:]:
            return False
        if c.sym and [x == -1 for x in row] != [x == -1 for x in row[::-1]]:
            return False
    return True


def post_create(r, new_multipanel, constraints):
    mp, c = new_multipanel, constraints
    if not good_layout(r, mp, c):
        return False
    t = rows(r)
    for g, (a, b) in enumerate(groups_of(mp, c)):
        for p, row in zip(mp.reduced.panels, t):
            if kept(row[a:b]) != p.n_plies_per_group[g]:
                return False
    return True


def post_numbers(r, new_multipanel, constraints):
    "plies are numbered from the bottom, from both surfaces when symmetric"
    for row in rows(r):
        n = len(row)
        half = (n + 1) // 2 if constraints.sym else n
        exp, k = [], 0
        for x in row[:half]:
            if x == -1:
                exp.append(-1)
            else:
                k += 1
                exp.append(k)
        if constraints.sym:
            exp += exp[:n // 2][::-1]
        if row != exp:
            return False
    return True


# ------------------------------------------------ assembly of group layouts
def gen_local(rng, size):
    v = gen_divided(rng, size)
    if v is None:
        return None
    mp, c = v['multipanel'], v['constraints']
    red = mp.reduced
    m, g = red.n_panels, red.n_groups

    def cov():
        if c.n_covering == 0:
            return None
        return np.array([list(range(c.n_covering))] * m)

    def local(k):
        t = layout(rng, [int(p.n_plies_per_group[k]) for p in red.panels],
                   int(red.n_plies_per_group[k]), 0)
        return t
    locs = [local(k) for k in range(g)]
    if c.sym:
        if mp.has_middle_ply:
            locs[-1] = np.hstack((locs[-1], np.array(
                [[0 if p.has_middle_ply else -1] for p in red.panels])))
        return {'multipanel': mp, 'sym': True,
                'pdl_before_cummul': [cov()] + locs,
                'pdl_after_cummul': None}
    before, after = [None] * (g + 2), [None] * (g + 2)
    before[0], after[1] = cov(), cov()
    for k in range(g):
        (before if k % 2 == 0 else after)[k + 2] = locs[k]
    return {'multipanel': mp, 'sym': False, 'pdl_before_cummul': before,
            'pdl_after_cummul': after}


def post_global(r, multipanel, sym, pdl_before_cummul, pdl_after_cummul):
    out = []
    for p in range(multipanel.reduced.n_panels):
        row = []
        for k, t in enumerate(pdl_before_cummul):
            if t is not None and (sym or k % 2 == 0):
                row += [x != -1 for x in t[p]]
        if sym:
            row += row[::-1][1 if multipanel.has_middle_ply else 0:]
        else:
            for k in range(len(pdl_after_cummul))[::-1]:
                if pdl_after_cummul[k] is not None and k % 2 == 1:
                    row += [x != -1 for x in pdl_after_cummul[k][p]]
        out.append(row)
    return [[x != -1 for x in row] for row in rows(r)] == out


def post_global_numbers(r, multipanel, sym):
    class C:
        pass
    C.sym = sym
    return post_numbers(r, multipanel, C)


# --------------------------------------------------------- layout of a group
GROUP = ('boundaries', 'n_ply_drops', 'n_max', 'parameters',
         'obj_func_param', 'constraints', 'multipanel', 'pdl_before',
         'pdl_after', 'last_group', 'covering_top', 'covering_bottom',
         'has_middle_ply', 'middle_ply_indices')


def gen_group(rng, size):
    v = gen_divided(rng, size)
    if v is None:
        return None
    mp, c = v['multipanel'], v['constraints']
    red = mp.reduced
    k = rng.randrange(red.n_groups)
    n_max = int(red.n_plies_per_group[k])
    drops = mp.calc_ply_drops(k)
    top = rng.random() < .3 and n_max - 1 >= max(drops)
    bot = rng.random() < .3 and n_max - 1 - top >= max(drops)
    last = bool(k == red.n_groups - 1)
    cov = None
    if rng.random() < .5:
        cov = layout(rng, sorted(rng.randint(0, 4) for _ in red.panels), 4, 0)
    return {'boundaries': red.boundaries, 'n_ply_drops': drops,
            'n_max': n_max, 'parameters': v['parameters'],
            'obj_func_param': None, 'constraints': c, 'multipanel': mp,
            'pdl_before': cov if c.sym or k % 2 == 0 else None,
            'pdl_after': None if c.sym or k % 2 == 0 else cov,
            'last_group': last, 'covering_top': top, 'covering_bottom': bot,
            'has_middle_ply': mp.has_middle_ply,
            'middle_ply_indices': red.middle_ply_indices}


def post_group(r, n_ply_drops, n_max, multipanel, last_group, covering_top,
               covering_bottom, has_middle_ply, middle_ply_indices):
    if len(r) != 1:
        return False
    t = rows(r[0])
    mid = last_group and has_middle_ply
    if len(t) != len(n_ply_drops):
        return False
    for p, row in enumerate(t):
        if len(row) != n_max + (1 if mid else 0):
            return False
        if kept(row[:n_max]) != n_max - n_ply_drops[p]:
            return False
        if mid and (row[n_max] != -1) != (middle_ply_indices[p] != 0):
            return False
        if (covering_top and row[0] == -1) \
                or (covering_bottom and row[n_max - 1] == -1):
            return False
        if [x for x in row if x != -1] != list(range(kept(row))):
            return False
    return nested(t)


# ------------------------------------------- choice between random layouts
class Clock:
    "stands for the module time: one unit of time per layout drawn"
    def __init__(self):
        self.now = 0

    def time(self):
        return float(self.now)


class Lay:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return repr(self.__dict__)


def scripted(rng, n, limit):
    """layouts drawn one after the other (index into a pool) and the spacing
    penalty of each layout of the pool"""
    pool = rng.randint(n + 1, n + 8)
    pen = [0 if rng.random() < .25 else rng.choice(
        [.1, .2, .3, .5, .7, 1.1, 1.3]) for _ in range(pool)]
    draws = [rng.randrange(pool) for _ in range(limit)]
    return pen, draws


def choose(pen, draws, n, limit):
    """what must be returned: the manufacturable layouts in the order found,
    completed with the distinct layouts of smallest penalties; None when too
    few distinct layouts were found"""
    perfect, rest = [], []
    used = 0
    for d in draws:
        if len(perfect) == n or used >= limit:
            break
        used += 1
        if pen[d] == 0:
            if d not in perfect:
                perfect.append(d)
        elif d not in rest:
            rest.append(d)
    rest.sort(key=lambda d: pen[d])
    if len(perfect) + len(rest) < n:
        return None
    return perfect, [pen[d] for d in rest[:n - len(perfect)]]


def gen_choice(rng, size):
    n, limit = rng.randint(1, 4), rng.randint(2, 30)
    pen, draws = scripted(rng, n, limit)
    if choose(pen, draws, n, limit) is None:
        return None
    m, k = rng.randint(1, 3), rng.randint(4, 6)
    mp = Lay(reduced=Lay(n_panels=m), n_plies_max=k)
    return {'multipanel': mp, 'constraints': Lay(
        sym=False, pdl_spacing=True), 'parameters': Lay(
            n_ini_ply_drops=n, time_limit_all_pdls=float(limit),
            time_limit_group_pdl=1.), 'obj_func_param': Lay(pen=pen,
                                                            draws=draws)}


def draw_layouts(f, multipanel, constraints, parameters, obj_func_param):
    """create_initial_pdls with the random generator, the penalty and the
    clock replaced: the sequence of layouts is the scripted one"""
    mod = __import__(f.__module__, fromlist=['x'])
    clock = Clock()
    pen, draws = obj_func_param.pen, obj_func_param.draws
    shape = (multipanel.reduced.n_panels, multipanel.n_plies_max)

    def create(*a, **k):
        d = draws[min(clock.now, len(draws) - 1)]
        clock.now += 1
        return np.full(shape, d + 1)

    def penalty(pdl, *a, **k):
        return pen[int(pdl[0][0]) - 1]
    with mock.patch.object(mod, 'create_initial_pdl', create), \
            mock.patch.object(mod, 'calc_penalty_spacing', penalty), \
            mock.patch.object(mod, 'time', clock):
        r = f(multipanel, constraints, parameters, obj_func_param)
    if clock.now == 0:
        return None
    return [int(t[0][0]) - 1 for t in r]


def post_choice(r, parameters, obj_func_param):
    if r is None:
        return True
    pen = obj_func_param.pen
    perfect, rest = choose(pen, obj_func_param.draws,
                           parameters.n_ini_ply_drops,
                           parameters.time_limit_all_pdls)
    return r[:len(perfect)] == perfect and len(set(r)) == len(r) \
        and [pen[d] for d in r[len(perfect):]] == rest


def gen_pick(rng, size):
    n, limit = rng.randint(1, 4), rng.randint(2, 30)
    pen, draws = scripted(rng, n, limit)
    if choose(pen, draws, n, limit) is None:
        return None
    m = rng.randint(1, 3)
    k = len(pen)
    return {'boundaries': np.zeros((0, 2), int),
            'n_ply_drops': np.array([1] * m), 'n_max': k,
            'parameters': Lay(time_limit_group_pdl=float(limit)),
            'obj_func_param': Lay(pen=pen, draws=draws),
            'constraints': Lay(sym=False, pdl_spacing=True, min_drop=1),
            'multipanel': Lay(reduced=Lay(n_panels=m)), 'n_pdl_max': n}


def pick_layouts(f, boundaries, n_ply_drops, n_max, parameters,
                 obj_func_param, constraints, multipanel, n_pdl_max):
    mod = __import__(f.__module__, fromlist=['x'])
    clock = Clock()
    pen, draws = obj_func_param.pen, obj_func_param.draws

    class Random:
        @staticmethod
        def sample(population, k):
            d = draws[min(clock.now, len(draws) - 1)]
            clock.now += 1
            return [d]

    def penalty(pdl, *a, **k):
        return pen[[int(x) for x in pdl[0]].index(-1)]
    with mock.patch.object(mod, 'random', Random), \
            mock.patch.object(mod, 'calc_penalty_spacing', penalty), \
            mock.patch.object(mod, 'time', clock):
        r = f(boundaries, n_ply_drops, n_max, parameters, obj_func_param,
              constraints, multipanel, n_pdl_max)
    if clock.now == 0:
        return None
    return [[int(x) for x in t[0]].index(-1) if -1 in t[0] else -1
            for t in r]


def post_pick(r, parameters, obj_func_param, n_pdl_max):
    if r is None:
        return True
    pen = obj_func_param.pen
    perfect, rest = choose(pen, obj_func_param.draws, n_pdl_max,
                           parameters.time_limit_group_pdl)
    return r[:len(perfect)] == perfect and len(set(r)) == len(r) \
        and [pen[d] for d in r[len(perfect):]] == rest


# --------------------------------------------------------- layouts as inputs
def gen_check(rng, size):
    v = gen_divided(rng, size)
    if v is None:
        return None
    mp = v['multipanel']
    pdls = []
    for _ in range(rng.randint(1, 3)):
        t = layout(rng, [p.n_plies for p in mp.reduced.panels],
                   mp.n_plies_max, 0)
        k = rng.random()
        if k < .15:
            t = t[1:]
        elif k < .3:
            i, j = rng.randrange(len(t)), rng.randrange(mp.n_plies_max)
            t[i, j] = 0 if t[i, j] == -1 else -1
        elif k < .4:
            t = np.vstack((t, t[-1:]))
        pdls.append(t)
    return {'multipanel': mp, 'pdls_ini': pdls}


def bad_layouts(multipanel, pdls_ini):
    n = [p.n_plies for p in multipanel.reduced.panels]
    return any([kept(row) for row in rows(t)] != n for t in pdls_ini)


def bad_ini(multipanel, pdls_ini):
    ps = multipanel.reduced.panels
    m = len(ps)
    return not all(t.shape[0] == m and forall(0, m, lambda i: count(
        0, t.shape[1], lambda j: t[i, j] != -1) == ps[i].n_plies)
        for t in pdls_ini)


def is_none(r):
    return r is None


def gen_excel(rng, size):
    return {'pdls': [np.array([[rng.randint(-1, 9) for _ in range(4)]
                               for _ in range(rng.randint(1, 3))])
                     for _ in range(rng.randint(1, 4))]}


def write_read(f, pdls):
    import pandas as pd
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'pdls.xlsx')
        with pd.ExcelWriter(path) as w:
            for k, t in enumerate(pdls):
                pd.DataFrame(t).to_excel(w, sheet_name='pdl%d' % (k + 1),
                                         index=False, header=False)
        return f(path)


def post_excel(r, pdls):
    return [rows(t) for t in r] == [rows(t) for t in pdls]


def gen_sst(rng, size):
    from contracts.b_pdl import gen_local
    v = gen_divided(rng, size)
    if v is None:
        return None
    mp, c = v['multipanel'], v['constraints']
    red, n, k = mp.reduced, mp.n_plies_max, v['constraints'].n_covering
    if red.n_panels != mp.n_panels:
        return None
    h = n // 2 if c.sym else n
    lo, hi = k, h if c.sym else n - k
    t = np.arange(h) + np.zeros((red.n_panels, 1), int)
    cols = [x for x in range(lo, hi)]
    for p in range(red.n_panels - 1, -1, -1):
        want = red.panels[p].n_plies // (2 if c.sym else 1)
        if p < red.n_panels - 1:
            t[p] = t[p + 1]
        while kept(t[p]) > want:
            t[p, rng.choice(cols)] = -1
    if c.sym:
        mid = np.array([[0 if p.has_middle_ply else -1]
                        for p in red.panels])
        t = np.hstack((t, mid if mp.has_middle_ply else mid[:, :0],
                       np.flip(t, axis=1)))
    ang = np.array([rng.choice([0, 45, 90, -45]) for _ in range(n)])
    sst = np.where(t == -1, -1, ang)
    return {'sst': sst, 'multipanel': mp, 'constraints': c}


def post_sst(r, sst):
    return [[x != -1 for x in a] for a in rows(r[0])] == [
        [x != -1 for x in a] for a in rows(sst)]


# --------------------------------------------------------------------- rules
def gen_rules(rng, size):
    v = gen_divided(rng, size)
    if v is None:
        return None
    mp, c = v['multipanel'], v['constraints']
    n = rng.randint(4, 30)
    m = mp.reduced.n_panels
    t = layout(rng, sorted(rng.randint(max(2, n - 3), n) for _ in range(m)),
               n, 0)
    if rng.random() < .5 and c.n_covering:
        k = c.n_covering
        t[:, :k] = 3
        t[:, n - k:] = 3
    reduced = rng.random() < .6
    if not reduced:
        t = t[mp.reduced.ind_panels_guide]
    return {'reduced_sst': t, 'multipanel': mp, 'constraints': c,
            'reduced': reduced}


def bad_rules(reduced_sst, multipanel, constraints, reduced):
    t, c, red = rows(reduced_sst), constraints, multipanel.reduced
    k = c.n_covering
    if c.covering and any(-1 in row[:k] or -1 in row[len(row) - k:]
                          for row in t):
        return True
    if not c.pdl_spacing:
        return False
    if not reduced:
        t = [t[i] for i in red.ind_for_reduc]
    return expected([np.array(row) for row in t], red, c.min_drop,
                    None, None) > 0


def is_zero(r):
    return r == 0


CONTRACTS = [
    Contract('format_ply_drops', T + 'format_ply_drops', {
        'my_list': NONE, 'n_max': Int(1, 9)}, generate=gen_format,
        ensures=post_format, mode='bounded', samples=800),
    Contract('format_ply_drops2', T + 'format_ply_drops2', {
        'ss': Mat('int', 'm', 'n', 0, 0, -1, 30, pool=[-1, -1, 0, 3, 8])},
        ensures=post_format2, modifies=('ss',), samples=800,
        mode='bounded'),
] + [
    Contract('format_ply_drops2.%d' % k, T + 'format_ply_drops2', {
        'ss': Mat('int', k, 'n', k, 0, -1, 30, pool=[-1, -1, 0, 3, 8])},
        ensures=post_format2, modifies=('ss',), samples=100)
    for k in (1, 2, 3)] + [
    Contract('check_pdls_ini.%d' % k, I + 'check_pdls_ini', {
        'multipanel': Obj(None, reduced=Obj(
            None, n_panels=Dim('m', 1), panels=ObjList(
                'm', 1, 'src.BELLA.panels:Panel', n_plies=Int(0, 40)))),
        'pdls_ini': Lst(*[Mat('int', 'q%d' % i, 'n', 1, 0, -1, 30, pool=[
            -1, 4, 9]) for i in range(k)])},
        raises={'Exception': bad_ini}, ensures=is_none, samples=400)
    for k in (1, 2)] + [
    Contract('ply_drops_at_each_boundaries',
             T + 'ply_drops_at_each_boundaries', {
                 'new_pdl': NONE, 'n_ply_drops_unique': NONE,
                 'indices_unique': NONE, 'n_ply_drops': NONE},
             generate=gen_bounds, ensures=post_bounds, mode='bounded',
             samples=600),
    Contract('global_pdl_from_local_pdl', T + 'global_pdl_from_local_pdl', {
        'multipanel': NONE, 'sym': NONE, 'pdl_before_cummul': NONE,
        'pdl_after_cummul': NONE}, generate=gen_local, mode='bounded',
        ensures=[post_global, post_global_numbers], samples=900),
    Contract('create_initial_pdl', I + 'create_initial_pdl', {
        'multipanel': NONE, 'constraints': NONE, 'parameters': NONE,
        'obj_func_param': NONE}, call=seeded, generate=gen_divided,
        mode='bounded', ensures=[post_create, post_numbers], samples=600),
    Contract('randomly_pdl_guide', 'src.BELLA.pdl_group:randomly_pdl_guide',
             {n: NONE for n in GROUP}, kwargs=GROUP, call=seeded,
             generate=gen_group, ensures=post_group, mode='bounded',
             samples=900),
    Contract('randomly_pdl_guide.best',
             'src.BELLA.pdl_group:randomly_pdl_guide', {
                 n: NONE for n in GROUP[:7] + ('n_pdl_max',)},
             call=pick_layouts, generate=gen_pick, ensures=post_pick,
             mode='bounded', samples=1500),
    Contract('create_initial_pdls.best', I + 'create_initial_pdls', {
        'multipanel': NONE, 'constraints': NONE, 'parameters': NONE,
        'obj_func_param': NONE}, call=draw_layouts, generate=gen_choice,
        ensures=post_choice, mode='bounded', samples=1500),
    Contract('check_pdls_ini', I + 'check_pdls_ini', {
        'multipanel': NONE, 'pdls_ini': NONE}, generate=gen_check,
        mode='bounded', raises={'Exception': bad_layouts}, samples=800),
    Contract('read_pdls_excel', I + 'read_pdls_excel', {'pdls': NONE},
             call=write_read, generate=gen_excel, ensures=post_excel,
             mode='bounded', samples=25),
    Contract('input_pdl_from_sst', T + 'input_pdl_from_sst', {
        'sst': NONE, 'multipanel': NONE, 'constraints': NONE},
        generate=gen_sst, ensures=post_sst, mode='bounded', samples=600),
    Contract('check_ply_drop_rules',
             'src.guidelines.one_stack:check_ply_drop_rules', {
                 'reduced_sst': NONE, 'multipanel': NONE,
                 'constraints': NONE, 'reduced': NONE},
             generate=gen_rules, mode='bounded', ensures=is_zero,
             raises={'Exception': bad_rules}, samples=800),
]

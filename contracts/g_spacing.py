"""C09 ply drop spacing (src/guidelines/ply_drop_spacing.py)."""
import itertools
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts.b_strip import gen_strip, incompatible


PROPERTY = "C09"
MOD = 'src.guidelines.ply_drop_spacing:'


# --------------------------------------------------------- one panel boundary
def gaps(ss, min_drop):
    "plies missing between consecutive dropped plies"
    d = [i for i in range(len(ss)) if ss[i] == -1]
    return sum(max(0, min_drop - (b - a - 1)) for a, b in zip(d, d[1:]))


def post_1ss(r, ss, min_drop):
    return near(r, gaps(ss, min_drop) / max(1, len(ss)))


def patterns():
    for n in range(0, 10):
        for p in itertools.product((-1, 7), repeat=n):
            for k in range(1, 4 + (n > 5)):
                yield {'ss': np.array(p), 'min_drop': k}


# -------------------------------------------------------- ply drop layouts
def layout(rng, counts, total, start):
    """nested ply drop layouts (guide-based blending): row p keeps counts[p]
    of the plies start, start + 1, ... and has -1 elsewhere"""
    kept = list(range(total))
    rows = [None] * len(counts)
    for p in range(len(counts) - 1, -1, -1):
        while len(kept) > counts[p]:
            kept.pop(rng.randrange(len(kept)))
        rows[p] = [start + i if i in kept else -1 for i in range(total)]
    return np.array(rows, dtype=int).reshape(len(counts), total)


def gen_layouts(rng, size, strip):
    v = gen_strip(rng, size)
    if v is None:
        return None
    mp, c = v['multipanel'], v['constraints']
    if incompatible(mp, c):
        return None
    c.pdl_spacing = rng.random() < .9
    c.min_drop = rng.randint(1, 5)
    mp.from_mp_to_blending_strip(c, n_plies_ref_panel=1)
    m = mp.reduced.n_panels

    def table(lo, hi, start):
        total = rng.randint(lo, hi)
        counts = sorted(rng.randint(0, total) for _ in range(m))
        return layout(rng, counts, total, start)
    pdl = table(2, 3 + size, 50)
    before = table(0, 6, 0) if rng.random() < .6 else None
    after = table(0, 6, 90) if rng.random() < .6 else None
    if not strip:
        g = mp.reduced.ind_panels_guide
        pdl = pdl[g]
        before = before if before is None else before[g]
        after = after if after is None else after[g]
        if rng.random() < .5:
            del mp.reduced
    elif rng.random() < .4:
        pdl = list(pdl)
        if rng.random() < .5:
            pdl[rng.randrange(m)] = rng.choice([None, np.array([50])])
    return {'pdl': pdl, 'multipanel': mp, 'constraints': c,
            'on_blending_strip': strip, 'pdl_before': before,
            'pdl_after': after}


def gen_on_strip(rng, size):
    return gen_layouts(rng, size, True)


def gen_on_structure(rng, size):
    return gen_layouts(rng, size, False)


def expected(pdl, mp_reduced, min_drop, pdl_before, pdl_after):
    s = 0
    for (a, b), w in mp_reduced.boundary_weights.items():
        if any(pdl[k] is None or len(pdl[k]) == 1 for k in (a, b)):
            continue

        def row(k):
            out = []
            for t in (pdl_before, pdl, pdl_after):
                if t is not None:
                    out += [int(x) for x in t[k]]
            return out
        l1, l2 = row(a), row(b)
        keep = [i for i in range(len(l1)) if l1[i] != -1 or l2[i] != -1]
        thin = [l1[i] for i in keep]
        if -1 not in thin:
            thin = [l2[i] for i in keep]
        s += w * gaps(thin, min_drop) / max(1, len(thin))
    return s


def post_strip(r, pdl, multipanel, constraints, pdl_before, pdl_after):
    if not constraints.pdl_spacing:
        return r == 0
    return near(r, expected(pdl, multipanel.reduced, constraints.min_drop,
                            pdl_before, pdl_after))


def post_structure(r, pdl, new_multipanel, multipanel, constraints,
                   pdl_before, pdl_after):
    if not constraints.pdl_spacing:
        return r == 0
    red = new_multipanel.reduced
    pl = [p.n_plies for p in multipanel.panels]
    first = [pl.index(x) for x in sorted(set(pl))]

    def cut(t):
        return None if t is None else t[first]
    return near(r, expected(cut(pdl), red, constraints.min_drop,
                            cut(pdl_before), cut(pdl_after)))


# ------------------------------------------------------- equality of layouts
def gen_same(rng, size):
    m, n = rng.randint(1, size), rng.randint(1, 4)
    a = [np.array([rng.choice([-1, k]) for k in range(n)]) for _ in range(m)]
    b = [x.copy() for x in a]
    if rng.random() < .6:
        b[rng.randrange(m)][rng.randrange(n)] = 77
    for k in range(m):
        if rng.random() < .15:
            a[k] = None
    return {'pdl1': a, 'pdl2': b, 'ind_ref': rng.randint(0, m - 1),
            'thick_to_thin': rng.random() < .6}


def post_same(r, pdl1, pdl2, ind_ref, thick_to_thin):
    n = ind_ref if thick_to_thin else len(pdl1)
    return r == all(pdl1[k] is None or list(pdl1[k]) == list(pdl2[k])
                    for k in range(n))


NONE = Const(None)
CONTRACTS = [
    Contract('calc_penalty_spacing_1ss', MOD + 'calc_penalty_spacing_1ss', {
        'ss': Arr('int', 'n', 0, -1, 20, pool=[-1, -1, 3, 5, 7]),
        'min_drop': Int(1, 6)}, ensures=post_1ss, mode='bounded'),
    Contract('calc_penalty_spacing_1ss.patterns',
             MOD + 'calc_penalty_spacing_1ss', {
                 'ss': Arr('int', 'n', 0, -1, 20), 'min_drop': Int(1, 6)},
             ensures=post_1ss, mode='bounded', exhaustive=patterns),
    Contract('calc_penalty_spacing.strip', MOD + 'calc_penalty_spacing', {
        'pdl': NONE, 'multipanel': NONE, 'constraints': NONE,
        'on_blending_strip': Const(True), 'pdl_before': NONE,
        'pdl_after': NONE}, kwargs=('on_blending_strip', 'pdl_before',
                                    'pdl_after'),
        generate=gen_on_strip, ensures=post_strip, mode='bounded',
        samples=1000),
    Contract('calc_penalty_spacing.structure', MOD + 'calc_penalty_spacing', {
        'pdl': NONE, 'multipanel': NONE, 'constraints': NONE,
        'on_blending_strip': Const(False), 'pdl_before': NONE,
        'pdl_after': NONE}, kwargs=('on_blending_strip', 'pdl_before',
                                    'pdl_after'),
        generate=gen_on_structure, ensures=post_structure, mode='bounded',
        modifies=('multipanel',), samples=1000),
    Contract('is_same_pdl', MOD + 'is_same_pdl', {
        'pdl1': NONE, 'pdl2': NONE, 'ind_ref': Int(0, 5),
        'thick_to_thin': Bool()}, kwargs=('thick_to_thin',),
        generate=gen_same, ensures=post_same, mode='bounded', samples=600),
]

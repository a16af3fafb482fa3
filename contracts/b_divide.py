"""C12 partition of laminates into ply groups (src/BELLA/divide_panels.py,
src/LAYLA_V02/divide_laminate_sym.py and divide_laminate_asym.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts.b_strip import incompatible


PROPERTY = "C12"
B = 'src.BELLA.divide_panels:'
LS = 'src.LAYLA_V02.divide_laminate_sym:divide_laminate_sym'
LA = 'src.LAYLA_V02.divide_laminate_asym:divide_laminate_asym'


def n_min_groups(n, size_max):
    "fewest groups that can hold n plies"
    return (n + size_max - 1) // size_max


def impossible(n, size_min, size_max):
    return n_min_groups(n, size_max) > n // size_min


def good_sizes(s, n, size_min, size_max):
    """fewest groups, sizes within the limits, small groups first, at most
    one group of an intermediate size"""
    s = [int(x) for x in s]
    return len(s) == n_min_groups(n, size_max) and sum(s) == n \
        and all(size_min <= x <= size_max for x in s) \
        and s == sorted(s) \
        and sum(size_min < x < size_max for x in s) <= 1


def positions(s, n, sym, start):
    """first ply of each group: groups follow each other from the outer
    surface (symmetric) or alternate between the bottom and the top of the
    laminate (asymmetric)"""
    out, lo, hi = [], start, start + n
    for i, x in enumerate(s):
        if sym or i % 2 == 0:
            out.append(lo)
            lo += x
        else:
            hi -= x
            out.append(hi)
    return out


# ------------------------------------------------------------------- LAYLA
def half(n):
    return n // 2


def post_sym(r, parameters, targets, step):
    n = targets.n_plies // 2
    s = [int(x) for x in r[0]]
    p = positions(s, n, True, 0)
    if targets.n_plies % 2:
        s[-1] -= 1
    return good_sizes(s, n, parameters.group_size_min,
                      parameters.group_size_max[step]) \
        and list(r[1]) == p and r[2] == len(s)


def bad_sym(parameters, targets, step):
    return impossible(targets.n_plies // 2, parameters.group_size_min,
                      parameters.group_size_max[step])


def post_asym(r, parameters, targets, step):
    n = targets.n_plies
    return good_sizes(r[0], n, parameters.group_size_min,
                      parameters.group_size_max[step]) \
        and list(r[1]) == positions(r[0], n, False, 0) \
        and r[2] == len(r[0])


def bad_asym(parameters, targets, step):
    return impossible(targets.n_plies, parameters.group_size_min,
                      parameters.group_size_max[step])


def sizes_sym(r, parameters, targets, step):
    n, lo, hi = targets.n_plies // 2, parameters.group_size_min, \
        parameters.group_size_max[step]
    s, g = r[0], n_min_groups(n, hi)
    odd = targets.n_plies % 2
    return len(s) == g and r[2] == g \
        and total(0, g, lambda i: s[i]) == n + odd \
        and forall(0, g, lambda i: lo <= s[i]
        and s[i] <= hi + ite(i == g - 1, odd, 0)
        and implies(i > 0, s[i - 1] <= s[i]))


def pos_sym(r, parameters, targets, step):
    s, p = r[0], r[1]
    return len(p) == len(s) and forall(0, len(p), lambda i: p[i] == total(
        0, i, lambda j: s[j]))


def sizes_asym(r, parameters, targets, step):
    n, lo, hi = targets.n_plies, parameters.group_size_min, \
        parameters.group_size_max[step]
    s, g = r[0], n_min_groups(n, hi)
    return len(s) == g and r[2] == g and total(0, g, lambda i: s[i]) == n \
        and forall(0, g, lambda i: lo <= s[i] and s[i] <= hi
                   and implies(i > 0, s[i - 1] <= s[i]))


def pos_asym(r, parameters, targets, step):
    s, p = r[0], r[1]
    g = len(s)
    return len(p) == g and forall(0, (g + 1) // 2, lambda i: p[2 * i] == total(
        0, i, lambda j: s[2 * j])) and forall(
            0, g // 2, lambda i: p[2 * i + 1] == targets.n_plies - total(
                0, i + 1, lambda j: s[2 * j + 1]))


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return repr(self.__dict__)


def all_layla():
    for lo in range(1, 8):
        for hi in range(lo, 14):
            for n in list(range(2, 60)) + [79, 97, 120, 121, 200]:
                yield {'parameters': Bag(group_size_min=lo,
                                         group_size_max=np.array([hi])),
                       'targets': Bag(n_plies=n), 'step': 0}


def gen_layla(rng, size):
    lo = rng.randint(1, 7)
    k = rng.randint(1, 3)
    return {'parameters': Bag(group_size_min=lo, group_size_max=np.array(
        [lo + rng.randint(0, 8) for _ in range(k)])),
        'targets': Bag(n_plies=rng.randint(2, 300)),
        'step': rng.randrange(k)}


# ------------------------------------------------------------------- BELLA
def gen_bella(rng, size):
    from src.BELLA.constraints import Constraints
    from src.BELLA.parameters import Parameters
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    cov = rng.choice([0, 0, 1, 2])
    c = Constraints(sym=rng.random() < .5, covering=cov > 0, n_covering=cov)
    lo = rng.randint(1, 7)
    p = Parameters(c, group_size_min=lo, group_size_max=lo + rng.randint(0, 8))
    m = rng.randint(1, 5)
    thick = rng.randint(2 * cov + 2, 90)
    ps = [Panel(i + 1, c, n_plies=thick if i == 0 else
                rng.randint(max(2 * cov + 2, thick // 2), thick),
                neighbour_panels=[i] if i else []) for i in range(m)]
    rng.shuffle(ps)
    mp = MultiPanel(ps)
    if incompatible(mp, c):
        return None
    mp.from_mp_to_blending_strip(c, 1)
    return {'multipanel': mp, 'parameters': p, 'constraints': c}


def grouped(n, c):
    "plies to be split into groups, covering and middle plies left out"
    n = n - 2 * c.n_covering
    return n // 2 if c.sym else n


def bad_bella(multipanel, parameters, constraints):
    return impossible(grouped(multipanel.n_plies_max, constraints),
                      parameters.group_size_min, parameters.group_size_max)


def post_bella(new_multipanel, parameters, constraints):
    mp, red, c = new_multipanel, new_multipanel.reduced, constraints
    n = grouped(mp.n_plies_max, c)
    s = [int(x) for x in red.n_plies_per_group]
    return good_sizes(s, n, parameters.group_size_min,
                      parameters.group_size_max) \
        and red.n_groups == len(s) \
        and list(red.n_first_plies) == positions(s, n, c.sym, c.n_covering)


def post_panels(new_multipanel, parameters, constraints):
    mp, red, c = new_multipanel, new_multipanel.reduced, constraints
    s = [int(x) for x in red.n_plies_per_group]
    for p in red.panels:
        n = grouped(p.n_plies, c)
        g = [int(x) for x in p.n_plies_per_group]
        d = [int(x) for x in p.n_ply_drops]
        if len(g) != len(s) or len(d) != len(s) or sum(g) != n:
            return False
        if any(x < 0 for x in d) or any(x < 0 for x in g):
            return False
        if any(a - b != x for a, b, x in zip(s, g, d)):
            return False
        if list(p.n_first_plies) != positions(g, n, c.sym, c.n_covering):
            return False
    return True


def post_even(new_multipanel, parameters, constraints):
    """the ply drops of a panel are shared between the groups in proportion
    to their sizes, those that remain go to the larger groups"""
    mp, red, c = new_multipanel, new_multipanel.reduced, constraints
    s = [int(x) for x in red.n_plies_per_group]
    n = sum(s)
    for p in red.panels:
        d = [int(x) for x in p.n_ply_drops]
        more, less = [], []
        k = mp.n_plies_max - p.n_plies
        if c.sym:
            k = (mp.n_plies_max - (p.n_plies - p.n_plies % 2)) / 2
        for x, size in zip(d, s):
            share = k * size / n
            if abs(x - share) > 1 + 1e-9:
                return False
            if x > share + 1e-9:
                more.append(size)
            if x < share - 1e-9:
                less.append(size)
        if more and less and min(more) < max(less):
            return False
    return True


def post_forbidden(r, constraints, parameters):
    return list(r) == [n for n in range(constraints.n_plies_min,
                                        constraints.n_plies_max + 1)
                       if impossible(grouped(n, constraints),
                                     parameters.group_size_min,
                                     parameters.group_size_max)]


def gen_forbidden(rng, size):
    lo = rng.randint(1, 8)
    cov = rng.choice([0, 1, 2])
    a = rng.randint(2 * cov + 2, 40)
    return {'constraints': Bag(n_plies_min=a, n_plies_max=a + rng.randint(
        0, 80), sym=rng.random() < .5, n_covering=cov),
        'parameters': Bag(group_size_min=lo,
                          group_size_max=lo + rng.randint(0, 5))}


NONE = Const(None)
LAYLA = {'parameters': NONE, 'targets': NONE, 'step': NONE}


def unbounded(lo, hi):
    "laminates of any number of plies, for given group size limits"
    return [Contract('divide_laminate_%s.%d.%d' % (nm, lo, hi), f, {
        'parameters': Obj(None, group_size_min=Const(lo),
                          group_size_max=Tup(Const(hi))),
        'targets': Obj(None, n_plies=Int(2, None, pool=range(2, 90))),
        'step': Const(0)}, ensures=posts, samples=100,
        raises={'PartitioningError': bad})
            for nm, f, posts, bad in (
                ('sym', LS, [sizes_sym, pos_sym], bad_sym),
                ('asym', LA, [sizes_asym], bad_asym))]


CONTRACTS = sum([unbounded(*x) for x in (
    (1, 1), (1, 8), (2, 6), (3, 5), (4, 7), (4, 12), (5, 9))], []) + [
    Contract('divide_laminate_sym', LS, LAYLA, mode='bounded',
             generate=gen_layla, exhaustive=all_layla, ensures=post_sym,
             raises={'PartitioningError': bad_sym}),
    Contract('divide_laminate_asym', LA, LAYLA, mode='bounded',
             generate=gen_layla, exhaustive=all_layla, ensures=post_asym,
             raises={'PartitioningError': bad_asym}),
    Contract('divide_panels', B + 'divide_panels', {
        'multipanel': NONE, 'parameters': NONE, 'constraints': NONE},
        generate=gen_bella, mode='bounded', modifies=('multipanel',),
        ensures=[post_bella, post_panels, post_even],
        raises={'PartitioningError': bad_bella}, samples=1500),
    Contract('forbidden_ply_counts', B + 'forbidden_ply_counts', {
        'constraints': NONE, 'parameters': NONE}, generate=gen_forbidden,
        ensures=post_forbidden, mode='bounded', samples=300),
]

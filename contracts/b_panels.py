"""C16 multi-panel structures (src/BELLA/multipanels.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C16"
MOD = 'src.BELLA.multipanels:'
PANEL = 'src.BELLA.panels:Panel'
MP = 'src.BELLA.multipanels:MultiPanel'


# ------------------------------------------------ methods on given structures
def post_weight(r, self, density_area):
    return near(r, density_area * total(0, len(self.panels), lambda i:
                self.panels[i].area * self.panels[i].n_plies))


def post_weight_per_panel(new_self, self, density_area):
    w = new_self.weight_ref_per_panel
    n = len(self.panels)
    return len(w) == n and forall(0, n, lambda i: near(
        w[i], density_area * (self.panels[i].area * self.panels[i].n_plies)))


def post_weight_sst(r, self, sst, density_area):
    return near(r, density_area * total(0, len(self.panels), lambda i:
                self.panels[i].area * count(0, sst.shape[1], lambda k:
                                            sst[i, k] != -1)))


def pre_sst(self, sst):
    return inv(self) and sst.shape[0] == len(self.panels)


def post_drops(r, self, inner_step):
    n = self.reduced.n_panels
    ps = self.reduced.panels
    return r.shape[0] == n and forall(0, n, lambda i: r[i] ==
        self.reduced.n_plies_per_group[inner_step]
        - ps[i].n_plies_per_group[inner_step])


def post_thick(r, self, new_self):
    k = new_self.ind_thick
    return r == 0 and 0 <= k and k < len(self.panels) \
        and self.panels[k].n_plies == self.n_plies_max \
        and forall(0, k, lambda i: self.panels[i].n_plies
                   != self.n_plies_max)


def is_thick(self, sym, i):
    n = self.panels[i].n_plies
    return n == self.n_plies_max or (
        sym and self.n_plies_max % 2 == 1 and n == self.n_plies_max - 1)


def post_thickest(r, self, sym):
    n = len(self.panels)
    return len(r) > 0 and forall(0, len(r), lambda k: 0 <= r[k] and r[k] < n
                                 and is_thick(self, sym, r[k])
                                 and implies(k > 0, r[k - 1] < r[k])) \
        and forall(0, n, lambda i: implies(
            is_thick(self, sym, i), exists(0, len(r), lambda k: r[k] == i)))


def post_middle(new_self, self):
    n = self.n_panels
    m = new_self.middle_ply_indices
    has = exists(0, n, lambda i: self.panels[i].middle_ply_index != 0)
    return m.shape[0] == n and forall(
        0, n, lambda i: m[i] == self.panels[i].middle_ply_index) \
        and iff(new_self.has_middle_ply, has) \
        and iff(new_self.thick_panel_has_middle_ply,
                has and self.n_plies_max % 2 == 1)


def inv(self):
    "class invariant: what the constructor establishes (contract MultiPanel)"
    n = len(self.panels)
    return self.n_panels == n and forall(
        0, n, lambda i: self.panels[i].n_plies <= self.n_plies_max
        and self.panels[i].n_plies >= self.n_plies_min) \
        and exists(0, n, lambda i: self.panels[i].n_plies
                   == self.n_plies_max) \
        and exists(0, n, lambda i: self.panels[i].n_plies
                   == self.n_plies_min) \
        and len(self.n_plies_in_panels) == n \
        and len(self.is_thick_panels) == n \
        and forall(0, n, lambda i: self.n_plies_in_panels[i]
                   == self.panels[i].n_plies
                   and iff(self.is_thick_panels[i], self.panels[i].n_plies
                           == self.n_plies_max))


def inv_middle(self):
    "and middle plies as the panel constructor sets them (C17)"
    return inv(self) and forall(0, self.n_panels, lambda i: (
        self.panels[i].middle_ply_index == 0
        or self.panels[i].n_plies % 2 == 1))


def of_max(panels):
    return max([p.n_plies for p in panels])


def of_min(panels):
    return min([p.n_plies for p in panels])


def of_thick(panels, n_plies_max):
    return [p.n_plies == n_plies_max for p in panels]


def of_plies(panels):
    return np.array([p.n_plies for p in panels])


PS = ObjList('m', 1, PANEL, n_plies=Int(1, 40, pool=[
    8, 8, 9, 9, 10, 11, 12]), area=Real(0, 9),
    middle_ply_index=Int(0, 20, pool=[0, 0, 0, 3, 4]))


def struct():
    return Obj(MP, panels=PS, n_panels=Dim('m', 1),
               n_plies_max=Derived(of_max, Int(1, 40), rel=False),
               n_plies_min=Derived(of_min, Int(1, 40), rel=False),
               n_plies_in_panels=Derived(of_plies, Arr('int', 'm', 1),
                                         rel=False),
               is_thick_panels=Derived(of_thick, Arr(
                   'bool', 'm', 1, is_list=True), rel=False))


# --------------------------------------------------- whole structures (bounded)
def neighbours(rng, n):
    "edges of a graph on n panels, connected four times out of five"
    edges = set()
    if rng.random() < .8:
        for i in range(1, n):
            edges.add((rng.randrange(i), i))
    for _ in range(rng.randrange(n)):
        i, j = rng.randrange(n), rng.randrange(n)
        if i != j:
            edges.add((min(i, j), max(i, j)))
    return sorted(edges)


def build_panels(rng, size, sym=None, even=False):
    from src.BELLA.panels import Panel
    from src.BELLA.constraints import Constraints
    c = Constraints(sym=rng.random() < .5 if sym is None else sym)
    n = rng.randint(1, max(2, size - 1))
    ids = rng.sample(range(1, 40), n)
    edges = neighbours(rng, n)
    adj = [[] for _ in range(n)]
    for i, j in edges:
        k = rng.randrange(3)
        if k in (0, 2):
            adj[i].append(ids[j])
        if k in (1, 2):
            adj[j].append(ids[i])
    base = rng.randint(2, 20)
    out = []
    for i in range(n):
        p = rng.choice([base, base + 1, base + 2, base + 3, base + 6, 30])
        if even:
            p += p % 2
        lx, ly = rng.choice([(0, 0), (2, 3), (1.5, 0), (.5, 4)])
        out.append(Panel(
            ids[i], c, p, area=rng.choice([0, 1, 2.5]), length_x=lx,
            length_y=ly, weighting=rng.choice([1, 2, .5, 3]),
            neighbour_panels=adj[i]))
    return out, ids, edges, c


def gen_structure(rng, size):
    ps, ids, edges, _ = build_panels(rng, size)
    w = None
    if rng.random() < .6:
        w = {}
        for i, j in edges:
            a, b = ids[i], ids[j]
            if rng.random() < .5:
                a, b = b, a
            w[(a, b)] = rng.choice([1, 2, 3, .5, .25])
        k = rng.random()
        if k < .12 and w:
            del w[rng.choice(sorted(w))]
        elif k < .2 and w:
            w[rng.choice(sorted(w))] = -1
        elif k < .3:
            w[(1000, 1001)] = 4
    k = rng.random()
    if k < .08 and len(ps) > 1:
        ps[0].ID = ps[1].ID
    elif k < .12:
        ps = tuple(ps)
    return {'panels': ps, 'boundary_weights': w}


def pairs_of(panels):
    "index pairs (i < j) of neighbouring panels"
    idx = {p.ID: k for k, p in enumerate(panels)}
    out = set()
    for i, p in enumerate(panels):
        for q in p.neighbour_panels:
            if q not in idx:
                return None
            out.add((min(i, idx[q]), max(i, idx[q])))
    return sorted(out)


def connected(n, pairs):
    seen = {0}
    for _ in range(n):
        for i, j in pairs:
            if i in seen or j in seen:
                seen |= {i, j}
    return len(seen) == n


def weight_of(w, a, b):
    if (a, b) in w:
        return w[(a, b)]
    return w.get((b, a))


def invalid(panels, boundary_weights):
    if not isinstance(panels, list):
        return True
    if len({p.ID for p in panels}) != len(panels):
        return True
    pairs = pairs_of(panels)
    if pairs is None or not connected(len(panels), pairs):
        return True
    w = boundary_weights
    if w is None:
        return False
    return any(x < 0 for x in w.values()) or any(
        weight_of(w, panels[i].ID, panels[j].ID) is None for i, j in pairs)


def post_structure(r, panels, boundary_weights):
    n = len(panels)
    pl = [p.n_plies for p in panels]
    pairs = pairs_of(panels)
    w = boundary_weights
    ids = [p.ID for p in panels]
    wt = {(i, j): 1 if w is None else weight_of(w, ids[i], ids[j])
          for i, j in pairs}
    nb = [[] for _ in range(n)]
    for i, j in pairs:
        nb[i].append(j)
        nb[j].append(i)
    mid = [p.middle_ply_index for p in panels]
    return r.n_panels == n and [p.ID for p in r.panels] == ids \
        and [p.ID_code for p in r.panels] == list(range(n)) \
        and near(r.area, sum(p.area for p in panels)) \
        and near(r.area_patches, sum(p.area * p.n_plies for p in panels)) \
        and r.n_plies_min == min(pl) and r.n_plies_max == max(pl) \
        and list(r.is_thick_panels) == [x == max(pl) for x in pl] \
        and list(r.n_plies_in_panels) == pl \
        and r.ind_thick == pl.index(max(pl)) \
        and list(r.middle_ply_indices) == mid \
        and r.has_middle_ply == any(mid) \
        and r.thick_panel_has_middle_ply == (any(mid) and max(pl) % 2 == 1) \
        and r.dict_ID_to_indices == {x: k for k, x in enumerate(ids)} \
        and r.boundaries.shape == (len(pairs), 2) \
        and [tuple(b) for b in r.boundaries.tolist()] == pairs \
        and r.boundaries_in_IDs.tolist() == [[ids[i], ids[j]]
                                             for i, j in pairs] \
        and r.boundary_weights == wt \
        and {frozenset(k): v for k, v in r.boundary_weights_in_IDs.items()} \
        == {frozenset((ids[i], ids[j])): v for (i, j), v in wt.items()} \
        and len(r.boundary_weights_in_IDs) == len(wt) \
        and [sorted(x) for x in r.identify_neighbour_panels()] \
        == [sorted(x) for x in nb]


CONTRACTS = [
    Contract('calc_weight', MOD + 'MultiPanel.calc_weight',
             {'self': struct(), 'density_area': Real(0, 9)},
             requires=inv, ensures=post_weight),
    Contract('calc_weight_per_panel', MOD + 'MultiPanel.calc_weight_per_panel',
             {'self': struct(), 'density_area': Real(0, 9)},
             requires=inv, ensures=post_weight_per_panel, modifies=('self',)),
    Contract('calc_weight_from_sst', MOD + 'MultiPanel.calc_weight_from_sst',
             {'self': struct(), 'sst': Mat('int', 'm', 'n', 1, 0, -1, 90,
                                           pool=[-1, -1, 0, 45]),
              'density_area': Real(0, 9)}, requires=pre_sst,
             ensures=post_weight_sst),
    Contract('identify_one_thickest_panel',
             MOD + 'MultiPanel.identify_one_thickest_panel',
             {'self': struct()},
             requires=inv, ensures=post_thick, modifies=('self',)),
    Contract('identify_thickest_panels',
             MOD + 'MultiPanel.identify_thickest_panels',
             {'self': struct(), 'sym': Bool()},
             requires=inv, ensures=post_thickest),
    Contract('has_a_middle_ply', MOD + 'MultiPanel.has_a_middle_ply',
             {'self': struct()},
             requires=inv_middle, ensures=post_middle, modifies=('self',)),
    Contract('MultiPanel', MOD + 'MultiPanel', {
        'panels': Lst(), 'boundary_weights': Const(None)},
        generate=gen_structure, mode='bounded', modifies=('panels',),
        ensures=post_structure, raises={'Exception': invalid}, samples=2500),
]

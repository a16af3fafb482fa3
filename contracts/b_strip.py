"""C25 blending strip (src/BELLA/reduced_multipanels.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts.b_panels import build_panels, pairs_of


PROPERTY = "C25"
MOD = 'src.BELLA.reduced_multipanels:'


def gen_strip(rng, size):
    from src.BELLA.multipanels import MultiPanel
    ps, ids, edges, c = build_panels(rng, size + 1, even=rng.random() < .5)
    w = None
    if rng.random() < .7:
        w = {(ids[i], ids[j]): rng.choice([1, 2, 3, .5, .25])
             for i, j in edges}
    try:
        mp = MultiPanel(ps, boundary_weights=w)
    except Exception:
        return None
    pl = [p.n_plies for p in ps]
    ref = rng.choice(pl + [rng.randint(1, max(pl) + 3)])
    return {'multipanel': mp, 'constraints': c, 'n_plies_ref_panel': ref}


def incompatible(multipanel, constraints):
    "an odd ply count below an even one in a symmetric structure"
    pl = [p.n_plies for p in multipanel.panels]
    return bool(constraints.sym and any(
        a % 2 == 1 and b % 2 == 0 and a < b for a in pl for b in pl))


def weights(w):
    s = sum(w)
    return [x / s for x in w]


def post_strip(r, multipanel, constraints, n_plies_ref_panel):
    ps = multipanel.panels
    pl = [p.n_plies for p in ps]
    counts = sorted(set(pl))
    m = len(counts)
    guide = [counts.index(x) for x in pl]
    ref = min([k for k in range(m) if counts[k] >= n_plies_ref_panel]
              or [m - 1])
    if [int(x) for x in r.n_plies_in_panels] != counts or r.n_panels != m \
            or list(r.ind_panels_guide) != guide \
            or list(r.ind_for_reduc) != [pl.index(x) for x in counts] \
            or r.ind_thick != m - 1 or r.ind_ref != ref \
            or r.n_plies_ref_panel != counts[ref] \
            or r.n_panels_thin != ref + 1 or r.n_panels_thick != m - ref \
            or [p.ID for p in r.panels] != [ps[pl.index(x)].ID
                                            for x in counts] \
            or list(r.middle_ply_indices) != [
                ps[pl.index(x)].middle_ply_index for x in counts]:
        return False
    # boundaries
    bw = {}
    for i, j in pairs_of(ps):
        a, b = sorted((guide[i], guide[j]))
        if a != b:
            bw[(a, b)] = bw.get((a, b), 0) + multipanel.boundary_weights[i, j]
    if sorted(tuple(b) for b in r.boundaries.tolist()) != sorted(bw):
        return False
    if set(r.boundary_weights) != set(bw) or not all(
            near(r.boundary_weights[k], bw[k]) for k in bw):
        return False
    # panel weightings
    act = [sum(ps[i].weighting for i in range(len(ps)) if guide[i] == k)
           for k in range(m)]
    if not all(near(a, b) for a, b in zip(r.actual_panel_weightings, act)) \
            or len(r.panel_weightings) != m:
        return False
    for k in range(m):
        exp = []
        if k < ref:
            w = weights(act[:ref])
            exp = [sum(w[:k + 1])] + w[k + 1:]
        if k > ref:
            w = weights(act[ref + 1:])
            e = k - ref
            exp = w[:e - 1] + [sum(w[e - 1:])]
        if len(exp) != len(r.panel_weightings[k]) or not all(
                near(a, b) for a, b in zip(r.panel_weightings[k], exp)):
            return False
    return steps(r, constraints, counts, ref)


def steps(r, constraints, counts, ref):
    "tables of the ply drops to design on both sides of the reference panel"
    s = 2 if constraints.sym else 1
    thin = (counts[ref] - counts[0]) // s
    thick = (counts[-1] - counts[ref]) // s
    if r.n_steps_thin != thin or r.n_steps_thick != thick:
        return False
    regular = s == 1 or len({x % 2 for x in counts}) == 1
    for side, n, sg in (('thin', thin, -1), ('thick', thick, 1)):
        tabs = [getattr(r, '%s_%s_tab' % (x, side)) for x in (
            'ind_panel', 'n_plies_after', 'n_plies_before', 'new_boundary',
            'n_panels_designed')]
        if n == 0:
            if any(t is not None for t in tabs):
                return False
            continue
        panel, after, before, new, designed = [list(t) for t in tabs]
        if any(len(t) != n for t in tabs):
            return False
        if before != [counts[ref] + sg * s * k for k in range(n)] \
                or after != [counts[ref] + sg * s * (k + 1)
                             for k in range(n)]:
            return False
        if not regular:
            continue
        if sg < 0:
            exp = [max(p for p in range(len(counts)) if counts[p] <= a)
                   for a in after]
        else:
            exp = [min(p for p in range(len(counts)) if counts[p] >= a)
                   for a in after]
        if panel != exp:
            return False
        fresh = [k == 0 or exp[k] != exp[k - 1] for k in range(n)]
        if new != fresh or designed != [sum(fresh[1:k + 1])
                                        for k in range(n)]:
            return False
    return True


def gen_from(rng, size):
    v = gen_strip(rng, size)
    if v is None:
        return None
    v['self'] = v.pop('multipanel')
    return v


def post_from(r, new_self, self, constraints, n_plies_ref_panel):
    return r is None and new_self.reduced is not None and post_strip(
        new_self.reduced, self, constraints, n_plies_ref_panel)


def incompatible_self(self, constraints):
    return incompatible(self, constraints)


CONTRACTS = [
    Contract('ReducedMultiPanel', MOD + 'ReducedMultiPanel', {
        'multipanel': Const(None), 'constraints': Const(None),
        'n_plies_ref_panel': Int(1, 30)}, generate=gen_strip,
        mode='bounded', ensures=post_strip, samples=2500,
        raises={'Exception': incompatible}),
    Contract('from_mp_to_blending_strip',
             'src.BELLA.multipanels:MultiPanel.from_mp_to_blending_strip', {
                 'self': Const(None), 'constraints': Const(None),
                 'n_plies_ref_panel': Int(1, 30)}, generate=gen_from,
             mode='bounded', ensures=post_from, samples=500,
             modifies=('self',), raises={'Exception': incompatible_self}),
]

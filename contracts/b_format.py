"""C11 conversions between stacking sequences, stacking sequence tables and
ply drop layouts (src/BELLA/format_pdl.py)."""
import itertools
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C11"
MOD = 'src.BELLA.format_pdl:'


# -------------------------------------------------- stacks from / to tables
def post_guide_to_sst(r, ss_guide, pdl):
    return r.shape[0] == pdl.shape[0] and r.shape[1] == pdl.shape[1] \
        and forall(0, pdl.shape[0], lambda p: forall(
            0, pdl.shape[1], lambda k: r[p, k] == ite(
                pdl[p, k] == -1, -1, ss_guide[k])))


def pre_guide(ss_guide, pdl):
    return ss_guide.size == pdl.shape[1]


def post_ss_to_sst(r, ss, pdl):
    return post_guide_to_sst(r, ss[-1], pdl)


def pre_ss_to_sst(ss, pdl):
    return ss[-1].size == pdl.shape[1]


def post_sst_to_ss(r, ss_tab):
    m, n = ss_tab.shape
    return len(r) == m and forall(0, m, lambda p:
        r[p].shape[0] == count(0, n, lambda j: ss_tab[p, j] != -1)
        and forall(0, n, lambda j: ss_tab[p, j] == -1 or
                   r[p][count(0, j, lambda i: ss_tab[p, i] != -1)]
                   == ss_tab[p, j]))


def pre_ref(ss_ref, ind_ref, reduced_pdl, reduced_ss_before):
    pdl = reduced_pdl
    return ind_ref < pdl.shape[0] and reduced_ss_before[-1].size \
        == pdl.shape[1] and forall(
            0, pdl.shape[1], lambda k: reduced_ss_before[-1][k] != -1) \
        and forall(0, ss_ref.size, lambda k: ss_ref[k] != -1) \
        and ss_ref.size == count(0, pdl.shape[1], lambda k:
                                 pdl[ind_ref, k] != -1)


def post_ref(r, ss_ref, ind_ref, reduced_pdl, reduced_ss_before):
    pdl = reduced_pdl
    return r.shape[0] == pdl.shape[0] and r.shape[1] == pdl.shape[1] \
        and forall(0, pdl.shape[0], lambda p: forall(
            0, pdl.shape[1], lambda k: r[p, k] == (
                -1 if pdl[p, k] == -1 else reduced_ss_before[-1][k]
                if pdl[ind_ref, k] == -1 else ss_ref[
                    count(0, k, lambda j: pdl[ind_ref, j] != -1)])))


def gen_ref(rng, size):
    m, n = rng.randint(1, 5), rng.randint(1, 2 * size)
    pdl = np.array([[rng.choice([-1, k, k]) for k in range(n)]
                    for _ in range(m)])
    i = rng.randrange(m)
    ss = np.array([rng.choice(POOL) for _ in range(
        sum(pdl[i] != -1))], dtype=int)
    before = [np.array([rng.choice(POOL) for _ in range(n)], dtype=int)
              for _ in range(m)]
    return {'ss_ref': ss, 'ind_ref': i, 'reduced_pdl': pdl,
            'reduced_ss_before': before}


# -------------------------------------------------------- strips / structures
def structure(**kw):
    return Obj(None, reduced=Obj(None, **kw), n_panels=Dim('k', 1))


def pre_reduce(multipanel, data):
    red = multipanel.reduced
    return red.ind_for_reduc.shape[0] == red.n_panels and forall(
        0, red.n_panels, lambda k: 0 <= red.ind_for_reduc[k]
        and red.ind_for_reduc[k] < len(data))


def post_reduce(r, multipanel, data):
    red = multipanel.reduced
    return r.shape[0] == red.n_panels and r.shape[1] == data.shape[1] \
        and forall(0, red.n_panels, lambda k: forall(
            0, data.shape[1], lambda j:
            r[k, j] == data[red.ind_for_reduc[k], j]))


def same(a, b):
    return a.shape[0] == b.shape[0] and forall(
        0, b.shape[0], lambda j: a[j] == b[j])


def post_reduce_list(r, multipanel, data):
    red = multipanel.reduced
    return len(r) == red.n_panels and forall(
        0, red.n_panels, lambda k: same(r[k], data[red.ind_for_reduc[k]]))


def pre_extend(multipanel, reduced_ss):
    g = multipanel.reduced.ind_panels_guide
    return g.shape[0] == multipanel.n_panels and forall(
        0, multipanel.n_panels, lambda k: 0 <= g[k]
        and g[k] < len(reduced_ss))


def post_extend(r, multipanel, reduced_ss):
    g = multipanel.reduced.ind_panels_guide
    return r.shape[0] == multipanel.n_panels \
        and r.shape[1] == reduced_ss.shape[1] and forall(
            0, multipanel.n_panels, lambda k: forall(
                0, reduced_ss.shape[1], lambda j:
                r[k, j] == reduced_ss[g[k], j]))


def post_extend_list(r, multipanel, reduced_ss):
    g = multipanel.reduced.ind_panels_guide
    return len(r) == multipanel.n_panels and forall(
        0, multipanel.n_panels, lambda k: same(r[k], reduced_ss[g[k]]))


# ------------------------------------------------------------- ply positions
def post_ref_to_sst(r, pos_ref, pdl_ref):
    "ply number pos_ref[k] of the panel is the ply in column r[k] - 1"
    return len(r) == len(pos_ref) and forall(0, len(pos_ref), lambda k:
        1 <= r[k] and r[k] <= len(pdl_ref) and pdl_ref[r[k] - 1] != -1
        and count(0, r[k], lambda j: pdl_ref[j] != -1) == pos_ref[k])


def post_to_panel(r, pos_sst, pdl_panel):
    "positions in the panel of the plies it has, in order"
    exp = [count(0, p, lambda j: pdl_panel[j] != -1)
           for p in pos_sst if pdl_panel[p - 1] != -1]
    return list(r) == exp


def post_to_panel_2(r, pos_sst, pdl_panel):
    return len(r) == len(pos_sst) and forall(
        0, len(pos_sst), lambda k: r[k] == ite(
            pdl_panel[pos_sst[k] - 1] == -1, 10000000000,
            count(0, pos_sst[k], lambda j: pdl_panel[j] != -1)))


def pre_positions(pos_sst, pdl_panel):
    return forall(0, len(pos_sst), lambda k: 1 <= pos_sst[k]
                  and pos_sst[k] <= len(pdl_panel))


def pre_ordered(pos_sst, pdl_panel):
    return forall(0, len(pos_sst), lambda k: 1 <= pos_sst[k]
                  and pos_sst[k] <= len(pdl_panel)
                  and (k == 0 or pos_sst[k - 1] < pos_sst[k]))


def line(rng, n):
    return [rng.choice([-1, k, k]) for k in range(n)]


def gen_ref_pos(rng, size):
    pdl = line(rng, rng.randint(1, 2 * size))
    n = sum(x != -1 for x in pdl)
    pos = rng.sample(range(1, n + 1), rng.randint(0, n))
    if rng.random() < .5:
        pos, pdl = np.array(pos, dtype=int), np.array(pdl)
    return {'pos_ref': pos, 'pdl_ref': pdl}


def gen_sst_pos(rng, size):
    pdl = line(rng, rng.randint(1, 2 * size))
    pos = sorted(rng.sample(range(1, len(pdl) + 1), rng.randint(0, len(pdl))))
    if rng.random() < .5:
        pos, pdl = np.array(pos, dtype=int), np.array(pdl)
    return {'pos_sst': pos, 'pdl_panel': pdl}


def all_lines():
    for n in range(1, 6):
        for p in itertools.product((-1, 3), repeat=n):
            for q in itertools.product((0, 1), repeat=n):
                yield {'pos_sst': np.array([k + 1 for k in range(n)
                                            if q[k]], dtype=int),
                       'pdl_panel': np.array(p)}


PDL = Mat('int', 'm', 'n', 1, 0, -1, 40, pool=[-1, -1, 3, 5, 7])
CONTRACTS = [
    Contract('convert_ss_guide_to_sst', MOD + 'convert_ss_guide_to_sst', {
        'ss_guide': plies('n'), 'pdl': PDL}, requires=pre_guide,
        ensures=post_guide_to_sst),
    Contract('convert_ss_to_sst', MOD + 'convert_ss_to_sst', {
        'ss': Lst(plies('a'), plies('b'), plies('n')), 'pdl': PDL},
        requires=pre_ss_to_sst, ensures=post_ss_to_sst),
    Contract('convert_sst_to_ss', MOD + 'convert_sst_to_ss', {
        'ss_tab': Mat('int', 'm', 'n', 1, 0, -89, 90,
                      pool=[-1, -1, 0, 45, 90, -45])},
        ensures=post_sst_to_ss),
    Contract('convert_ss_ref_to_reduced_sst',
             MOD + 'convert_ss_ref_to_reduced_sst', {
                 'ss_ref': plies('a'), 'ind_ref': Int(0, 9),
                 'reduced_pdl': PDL,
                 'reduced_ss_before': Lst(plies('b'), plies('n'))},
             requires=pre_ref, ensures=post_ref, generate=gen_ref),
    Contract('reduce_for_guide_based_blending',
             MOD + 'reduce_for_guide_based_blending', {
                 'multipanel': structure(
                     n_panels=Dim('q', 1),
                     ind_for_reduc=Arr('int', 'q', 1, 0, 2)),
                 'data': Mat('int', 'm', 'n', 3, 0, -89, 90)},
             requires=pre_reduce, ensures=post_reduce),
    Contract('reduce_for_guide_based_blending.list',
             MOD + 'reduce_for_guide_based_blending', {
                 'multipanel': structure(
                     n_panels=Dim('q', 1),
                     ind_for_reduc=Arr('int', 'q', 1, 0, 2)),
                 'data': panels('m', 3)},
             requires=pre_reduce, ensures=post_reduce_list),
    Contract('extend_after_guide_based_blending',
             MOD + 'extend_after_guide_based_blending', {
                 'multipanel': structure(
                     ind_panels_guide=Arr('int', 'k', 1, 0, 2)),
                 'reduced_ss': Mat('int', 'm', 'n', 3, 0, -89, 90)},
             requires=pre_extend, ensures=post_extend),
    Contract('extend_after_guide_based_blending.list',
             MOD + 'extend_after_guide_based_blending', {
                 'multipanel': structure(
                     ind_panels_guide=Arr('int', 'k', 1, 0, 2)),
                 'reduced_ss': panels('m', 3)},
             requires=pre_extend, ensures=post_extend_list),
    Contract('pos_in_ss_ref_to_pos_in_sst',
             MOD + 'pos_in_ss_ref_to_pos_in_sst', {
                 'pos_ref': Arr('int', 'a', 0, 1, 9), 'pdl_ref': Arr(
                     'int', 'n', 1, -1, 9)}, generate=gen_ref_pos,
             ensures=post_ref_to_sst, mode='bounded', samples=1500),
    Contract('pos_in_sst_to_pos_in_panel',
             MOD + 'pos_in_sst_to_pos_in_panel', {
                 'pos_sst': Arr('int', 'a', 0, 1, 9), 'pdl_panel': Arr(
                     'int', 'n', 1, -1, 9)}, generate=gen_sst_pos,
             ensures=post_to_panel, mode='bounded', samples=1500),
    Contract('pos_in_sst_to_pos_in_panel.all',
             MOD + 'pos_in_sst_to_pos_in_panel', {
                 'pos_sst': Arr('int', 'a', 0, 1, 9), 'pdl_panel': Arr(
                     'int', 'n', 1, -1, 9)}, exhaustive=all_lines,
             requires=pre_ordered,
             ensures=post_to_panel, mode='bounded'),
    Contract('pos_in_sst_to_pos_in_panel_2',
             MOD + 'pos_in_sst_to_pos_in_panel_2', {
                 'pos_sst': Arr('int', 'a', 0, 1, 9), 'pdl_panel': Arr(
                     'int', 'n', 1, -1, 9)}, requires=pre_positions,
             generate=gen_sst_pos,
             ensures=post_to_panel_2),
]

"""C20 pruning of fibre angles during the beam search (src/BELLA/pruning.py,
src/LAYLA_V02/pruning.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *
from contracts.g_diso import ok
from contracts.g_filter import CONTRACTS as FILTERS


PROPERTY = "C20"
B = 'src.BELLA.pruning:pruning_diso_contig_damtol'
L = 'src.LAYLA_V02.pruning:pruning_diso_contig_damtol'


def outer(a):
    return a == 45 or a == -45


def keep_dam_tol(a, level, c, bot, top):
    """outer plies: +-45; second plies: opposite of the outer ply (rule 2),
    +-45 (rule 3; of the opposite sign when +45 and -45 cannot follow each
    other... see `second`)"""
    if level == 0 or (level == 1 and not c.sym):
        return outer(a)
    if level == 3:
        return second(a, c, top[len(top) - 1])
    return second(a, c, bot[0])


def second(a, c, first):
    if c.dam_tol_rule == 2:
        return a == -first
    return outer(a) and (not c.diso or ok(-45, 45, c.delta_angle)
                         or a == -first)


def joint(a, n, bot):
    "with the last plies of bot, the new ply makes a block longer than n"
    m = len(bot)
    return m >= n and forall(0, n, lambda t: bot[m - 1 - t] == a)


def mirrored(a, n, bot, middle):
    """the new ply (middle ply or not) and its image make with the last
    plies of bot and their images a block longer than n"""
    m = len(bot)
    k = (n + 1) // 2 if middle else n // 2
    return m >= k and forall(0, k, lambda t: bot[m - 1 - t] == a)


def between(a, n, bot, top):
    "k plies of bot, the new ply and n - k plies of top are the same"
    m, q = len(bot), len(top)
    return exists(0, n + 1, lambda k: k <= m and n - k <= q
                  and forall(0, k, lambda t: bot[m - 1 - t] == a)
                  and forall(0, n - k, lambda t: top[t] == a))


def keep_sym(a, level, last, c, bot, middle):
    m = len(bot)
    if c.diso and not (m == 0 or ok(a, bot[m - 1], c.delta_angle)):
        return False
    if not c.contig:
        return True
    if level == last:
        return not mirrored(a, c.n_contig, bot, middle)
    return not joint(a, c.n_contig, bot)


def keep_asym(a, level, last, c, bot, top):
    """plies are laid from both surfaces in turn (bottom first); the last one
    joins both parts"""
    m, q = len(bot), len(top)
    bottom = level % 2 == 0
    if c.diso and (bottom or level == last):
        if m > 0 and not ok(a, bot[m - 1], c.delta_angle):
            return False
    if c.diso and (not bottom or level == last):
        if q > 0 and not ok(a, top[0], c.delta_angle):
            return False
    if not c.contig:
        return True
    if level == last:
        return not between(a, c.n_contig, bot, top)
    return not bottom or not joint(a, c.n_contig, bot)


def kept(r, a, good):
    "None when no angle remains, else the remaining ones in the same order"
    n = a.shape[0]
    if r is None:
        return not exists(0, n, lambda i: good(a[i]))
    return len(r) == count(0, n, lambda i: good(a[i])) and exists(
        0, n, lambda i: good(a[i])) and forall(
            0, n, lambda i: (not good(a[i])) or r[count(
                0, i, lambda j: good(a[j]))] == a[i])


def is_outer_level(level, c):
    if not c.dam_tol:
        return False
    two = c.dam_tol_rule == 2 or c.dam_tol_rule == 3
    if c.sym:
        return level == 0 or (two and level == 1)
    return level <= 1 or (two and level <= 3)


def pre_outer(level, constraints, mother_ss_bot, mother_ss_top,
              n_plies_to_optimise, child_ss, has_middle_ply):
    c = constraints
    return level < n_plies_to_optimise and is_outer_level(level, c) and (
        level == 0 or (level == 1 and not c.sym)
        or (len(mother_ss_top) > 0 if level == 3
            else len(mother_ss_bot) > 0)) and not (
                c.sym and has_middle_ply
                and level == n_plies_to_optimise - 1)


def post_outer(r, child_ss, mother_ss_bot, level, constraints, mother_ss_top):
    return kept(r, child_ss, lambda a: keep_dam_tol(
        a, level, constraints, mother_ss_bot, mother_ss_top))


def pre_sym(level, constraints, n_plies_to_optimise, mother_ss_bot):
    return level < n_plies_to_optimise and not is_outer_level(
        level, constraints)


def pre_asym(level, constraints, n_plies_to_optimise, mother_ss_bot,
             mother_ss_top):
    """the plies already laid: at least one at each surface when the last one
    is chosen"""
    return level < n_plies_to_optimise \
        and not is_outer_level(level, constraints) and (
            level < n_plies_to_optimise - 1
            or (len(mother_ss_bot) > 0 and len(mother_ss_top) > 0))


def post_symm(r, child_ss, mother_ss_bot, level, n_plies_to_optimise,
              constraints, has_middle_ply):
    last = n_plies_to_optimise - 1

    def good(a):
        return keep_sym(a, level, last, constraints, mother_ss_bot,
                        has_middle_ply)
    if has_middle_ply and level == last:
        if r is None:
            return not good(0) and not good(90)
        if len(r) == 2:
            return good(0) and good(90) and r[0] == 0 and r[1] == 90
        return len(r) == 1 and (
            (good(0) and not good(90) and r[0] == 0)
            or (good(90) and not good(0) and r[0] == 90))
    return kept(r, child_ss, good)


def post_asym(r, child_ss, mother_ss_bot, level, n_plies_to_optimise,
              constraints, mother_ss_top):
    return kept(r, child_ss, lambda a: keep_asym(
        a, level, n_plies_to_optimise - 1, constraints, mother_ss_bot,
        mother_ss_top))


def con(n, **kw):
    d = dict(dam_tol=Bool(), dam_tol_rule=OneOf(1, 2, 3),
             diso=Bool(), delta_angle=Int(1, 90, pool=[30, 45, 45, 60, 90]),
             contig=Bool(), n_contig=n)
    d.update(kw)
    return Obj(BELLA_C, **d)


CHILD = Arr('int', 'c', 1, lo=-89, hi=90, pool=POOL)
POOL2 = [0, 0, 0, 45, 45, 90, -45]
BOT = plies('b', pool=POOL2)
TOP = plies('t', pool=POOL2)
LEVEL = Int(0, None, pool=list(range(8)))
N = Int(1, None, pool=list(range(1, 9)))
NOTOP = Const(None)
NO = Const(False)
YES = Const(True)
MODULAR = [c for c in FILTERS if c.name == 'internal_contig2']


CONTRACTS = [
    Contract('outer', B, {
        'child_ss': CHILD, 'mother_ss_bot': BOT, 'level': OneOf(0, 1, 2, 3),
        'n_plies_to_optimise': N, 'constraints': con(
            4, sym=Bool(), dam_tol=Const(True), contig=NO),
        'mother_ss_top': TOP, 'has_middle_ply': Bool()},
        requires=pre_outer, ensures=post_outer, samples=800)]


def symmetric(name, n, **kw):
    return Contract('sym.' + name, B, {
        'child_ss': CHILD, 'mother_ss_bot': BOT, 'level': LEVEL,
        'n_plies_to_optimise': N, 'constraints': con(
            n, sym=Const(True), **kw),
        'mother_ss_top': NOTOP, 'has_middle_ply': Bool()},
        requires=pre_sym, ensures=post_symm, samples=400,
        modular=MODULAR, size=8,
        mode='bounded' if name in ('4', '5', '6') else 'proof',
        proof_tier='thorough' if name in ('2', '3') else 'quick')


def only_contiguity(k, what, middle, req):
    "disorientation off: contiguity is the only rule"
    return Contract('sym.%s.%d' % (what, k), B, {
        'child_ss': CHILD, 'mother_ss_bot': BOT, 'level': LEVEL,
        'n_plies_to_optimise': N, 'constraints': con(
            k, sym=Const(True), contig=YES, dam_tol=NO, diso=NO,
            dam_tol_rule=Const(0)),
        'mother_ss_top': NOTOP, 'has_middle_ply': middle},
        requires=req, ensures=post_symm, samples=200,
        modular=MODULAR, size=8,
        mode='bounded' if what == 'last' and k > 4 else 'proof')


def asymmetric(name, n, **kw):
    return Contract('asym.' + name, B, {
        'child_ss': CHILD, 'mother_ss_bot': BOT, 'level': LEVEL,
        'n_plies_to_optimise': N, 'constraints': con(n, sym=NO, **kw),
        'mother_ss_top': TOP, 'has_middle_ply': NO},
        requires=pre_asym, ensures=post_asym, samples=600,
        modular=MODULAR, size=8,
        mode='proof' if name == 'diso' else 'bounded')


for _f in (symmetric, asymmetric):
    CONTRACTS += [_f('diso', 2, contig=NO)]
    CONTRACTS += [_f(str(_k), _k, contig=YES, dam_tol=NO,
                     dam_tol_rule=Const(0)) for _k in (2, 3, 4, 5, 6)]


def only_contiguity_asym(k, what, req):
    return Contract('asym.%s.%d' % (what, k), B, {
        'child_ss': CHILD, 'mother_ss_bot': BOT, 'level': LEVEL,
        'n_plies_to_optimise': N, 'constraints': con(
            k, sym=NO, contig=YES, dam_tol=NO, diso=NO,
            dam_tol_rule=Const(0)),
        'mother_ss_top': TOP, 'has_middle_ply': NO},
        requires=req, ensures=post_asym, samples=200,
        modular=MODULAR, size=8,
        mode='bounded' if what == 'last' and k > 4 else 'proof')


def pre_not_last(level, constraints, n_plies_to_optimise):
    return level < n_plies_to_optimise - 1


def pre_last_sym(level, constraints, n_plies_to_optimise):
    return level == n_plies_to_optimise - 1


def pre_last(level, constraints, n_plies_to_optimise, mother_ss_bot,
             mother_ss_top):
    return level == n_plies_to_optimise - 1 and len(mother_ss_bot) > 0 \
        and len(mother_ss_top) > 0


CONTRACTS += [only_contiguity_asym(_k, 'side', pre_not_last)
              for _k in (2, 3, 4, 5, 6)]
CONTRACTS += [only_contiguity_asym(_k, 'last', pre_last)
              for _k in (2, 3, 4, 5, 6)]
CONTRACTS += [only_contiguity(_k, 'side', Bool(), pre_not_last)
              for _k in (2, 3, 4, 5, 6)]
CONTRACTS += [only_contiguity(_k, 'last', NO, pre_last_sym)
              for _k in (2, 3, 4, 5, 6)]
CONTRACTS += [only_contiguity(_k, 'middle', YES, pre_last_sym)
              for _k in (2, 3, 4, 5, 6)]


# ------------------------------------------------- LAYLA, symmetric laminates
def at(t, simp, mother):
    "(t + 1)-th last ply of simp + mother"
    return mother[len(mother) - 1 - t] if t < len(mother) \
        else simp[len(simp) - 1 - (t - len(mother))]


def keep_layla(a, level, c, simp, mother, n_plies):
    m = len(simp) + len(mother)
    n = c.n_contig
    if c.diso and not (m == 0 or ok(a, at(0, simp, mother), c.delta_angle)):
        return False
    if not c.contig:
        return True
    k = n
    if level == n_plies // 2 + n_plies % 2 - 1:
        k = n // 2 if n_plies % 2 == 0 else (n + 1) // 2
    return not (m >= k and forall(
        0, k, lambda t: at(t, simp, mother) == a))


def first_layla(a, level, c, mother):
    return outer(a) if level == 0 else second(a, c, mother[0])


def first_level(level, c):
    return c.dam_tol and (level == 0 or (level == 1 and (
        c.dam_tol_rule == 2 or c.dam_tol_rule == 3)))


def is_middle(level, targets):
    return targets.n_plies % 2 == 1 and level == targets.n_plies // 2


def pre_layla(level, constraints, targets, mother_ss_bot):
    return level < (targets.n_plies + 1) // 2 and (
        not first_level(level, constraints) or level == 0
        or len(mother_ss_bot) > 0)


def post_layla(r, child_ss, mother_ss_bot, ss_bot_simp, level, constraints,
               targets):
    def good(a):
        if first_level(level, constraints):
            return first_layla(a, level, constraints, mother_ss_bot)
        return keep_layla(a, level, constraints, ss_bot_simp, mother_ss_bot,
                          targets.n_plies)
    if is_middle(level, targets):
        if r is None:
            return not good(0) and not good(90)
        if len(r) == 2:
            return good(0) and good(90) and r[0] == 0 and r[1] == 90
        return len(r) == 1 and (
            (good(0) and not good(90) and r[0] == 0)
            or (good(90) and not good(0) and r[0] == 90))
    return kept(r, child_ss, good)


def pre_layla_side(level, constraints, targets, mother_ss_bot):
    return level < (targets.n_plies + 1) // 2 - 1


def pre_layla_last(level, constraints, targets, mother_ss_bot):
    return targets.n_plies % 2 == 0 and level == targets.n_plies // 2 - 1


def pre_layla_middle(level, constraints, targets, mother_ss_bot):
    return is_middle(level, targets)


def pre_layla_outer(level, constraints, targets, mother_ss_bot):
    return first_level(level, constraints) and pre_layla(
        level, constraints, targets, mother_ss_bot)


def lcon(n, **kw):
    d = dict(sym=YES, dam_tol=Bool(), dam_tol_rule=OneOf(1, 2, 3),
             diso=Bool(), delta_angle=Int(1, 90, pool=[30, 45, 45, 60, 90]),
             contig=Bool(), n_contig=n)
    d.update(kw)
    return Obj(LAYLA_C, **d)


def layla(name, c, req=pre_layla, **kw):
    return Contract('LAYLA.' + name, L, {
        'child_ss': CHILD, 'mother_ss_bot': plies('b', pool=POOL2),
        'ss_bot_simp': plies('s', pool=POOL2), 'level': LEVEL,
        'constraints': c, 'targets': Obj(
            'src.LAYLA_V02.targets:Targets',
            n_plies=Int(1, None, pool=list(range(1, 14)))),
        'mother_ss_top': NOTOP, 'ss_top_simp': NOTOP}, requires=req,
        ensures=post_layla, modular=MODULAR, size=6,
        **dict(dict(samples=200), **kw))


ALONE = dict(dam_tol=NO, dam_tol_rule=Const(0), contig=YES, diso=NO)
CONTRACTS += [
    layla('outer', lcon(4, dam_tol=YES, contig=NO), pre_layla_outer,
          samples=400),
    layla('diso', lcon(4, dam_tol=NO, dam_tol_rule=Const(0), contig=NO))]
CONTRACTS += [layla('all.%d' % _k, lcon(_k), mode='bounded', samples=500)
              for _k in (2, 3, 4, 5, 6)]
for _n, _p in (('side', pre_layla_side), ('last', pre_layla_last),
               ('middle', pre_layla_middle)):
    CONTRACTS += [layla(
        '%s.%d' % (_n, _k), lcon(_k, **ALONE), _p,
        samples=1500 if _n == 'last' else 400,
        mode='proof' if _n == 'middle' or (_n, _k) == ('side', 2)
        else 'bounded') for _k in (2, 3, 4, 5, 6)]

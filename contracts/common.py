"""Parameter forms shared by the contracts."""
from dv.contract import (Int, Dim, Real, Bool, SBool, Const, OneOf, Arr, Mat, ArrList,
                         Lst, Tup, Obj, ObjList, Ghost, Derived, Contract)

ANGLES = [0, 45, -45, 90]
ANGLES2 = [0, 15, -15, 30, -30, 45, -45, 60, -60, 75, -75, 90]
POOL = ANGLES * 3 + ANGLES2
BELLA_C = 'src.BELLA.constraints:Constraints'
LAYLA_C = 'src.LAYLA_V02.constraints:Constraints'


def plies(n='n', nmin=0, is_list=False, pool=None):
    "stacking sequence: fibre angles in degrees, -90 < angle <= 90"
    return Arr('int', n, nmin, lo=-89, hi=90, is_list=is_list,
               pool=pool or POOL)


def panels(n='m', nmin=1, emin=0, emax=None, pool=None):
    "list of stacking sequences, one per panel"
    return ArrList(n, nmin, emin, lo=-89, hi=90, pool=pool or POOL,
                   emax=emax)


def dam_tol_rules(**kw):
    """constraint sets of both programs: the BELLA form carries
    `dam_tol_rule` (1, 2 or 3), the LAYLA form `n_plies_dam_tol` (1 or 2)"""
    return OneOf(
        Obj(BELLA_C, dam_tol=Bool(), dam_tol_rule=OneOf(1, 2, 3), **kw),
        Obj(LAYLA_C, dam_tol=Bool(), n_plies_dam_tol=OneOf(1, 2), **kw))


def skipped(constraints):
    """number of outer plies left out of the contiguity and disorientation
    rules at each surface (two-ply damage tolerance)"""
    return ite_int(constraints.dam_tol and two_ply(constraints))


def two_ply(constraints):
    if hasattr(constraints, 'dam_tol_rule'):
        return constraints.dam_tol_rule in {2, 3}
    return constraints.n_plies_dam_tol == 2


def ite_int(c):
    return 1 if c else 0

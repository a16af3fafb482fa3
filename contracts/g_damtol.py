"""C08 damage tolerance guideline (src/guidelines/dam_tol.py)."""
import numpy as np
from dv.spec import (forall, exists, total, count, implies, iff, ite, near)
from contracts.common import *


PROPERTY = "C08"
MOD = 'src.guidelines.dam_tol:'


def outer(a):
    return abs(a) == 45


def val(stack, constraints):
    c = constraints
    n = len(stack)
    if not c.dam_tol:
        return True
    one = outer(stack[0]) and outer(stack[n - 1])
    if rule(c) == 1:
        return one
    two = one and outer(stack[1]) and outer(stack[n - 2])
    if rule(c) == 3:
        return two
    return two and stack[0] + stack[1] == 0 \
        and stack[n - 1] + stack[n - 2] == 0


def rule(c):
    if hasattr(c, 'dam_tol_rule'):
        return c.dam_tol_rule
    return c.n_plies_dam_tol


def unknown(constraints):
    c = constraints
    if hasattr(c, 'dam_tol_rule'):
        return c.dam_tol and not (c.dam_tol_rule in {1, 2, 3})
    return c.dam_tol and not (c.n_plies_dam_tol in {1, 2})


DT = OneOf(
    Obj(BELLA_C, dam_tol=Bool(), dam_tol_rule=OneOf(1, 2, 3, 0, 4)),
    Obj(LAYLA_C, dam_tol=Bool(), n_plies_dam_tol=OneOf(1, 2, 3, 0)))

CONTRACTS = [
    Contract('is_dam_tol', MOD + 'is_dam_tol',
             {'stack': plies(nmin=2, pool=[45, -45] * 6 + ANGLES2),
              'constraints': DT},
             result=val, raises={'Exception': unknown}, samples=3000,
             size=6),
    Contract('is_dam_tol.list', MOD + 'is_dam_tol',
             {'stack': plies(nmin=2, is_list=True,
                             pool=[45, -45] * 6 + ANGLES2),
              'constraints': DT},
             result=val, raises={'Exception': unknown}, samples=1000),
]

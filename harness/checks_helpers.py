"""Checks of the helper functions (modules Helpers, DupAlg)."""
import random

import core
import drv_helpers as D

DUP = """INIT Init
NEXT Next
CONSTANT N = %d
INVARIANTS GreedyOK Unique
"""


def p30(ck):
    ck.model("DupAlg", DUP % ck.n(4, 5), workers=4)
    for f, n, name in ((D.files, ck.n(60, 1500), "vector files"), (D.vectors, ck.n(150, 4000), "similarity and search")):
        seeds = [ck.rng.random() for _ in range(n)]
        ck.validate("TrHelpers", core.pmap(lambda s: f(random.Random(s)), seeds), name)

"""Checks of reported statistics (modules Stats, StatsGen)."""
import random

import core
import drv_stats as D

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {%s}
  Forgets = %s
  MaxText = %d
INVARIANTS Accounts Counts
"""


def p36(ck):
    ids = ck.n('"a", "b"', '"a", "b", "c"')
    g = ck.edges("StatsGen", GEN % (ids, "FALSE", ck.n(4, 6)), env={"EMIT": "1"})
    ck.refuted("StatsGen", GEN % ('"a"', "TRUE", 1), env={"EMIT": "0"})
    jobs = [(t, ck.rng.random()) for _ in range(ck.n(3, 8)) for t in g.tours(ck.rng, 60)]
    ck.validate("TrStats", core.pmap(lambda j: D.replay(random.Random(j[1]), j[0]), jobs), "store tours")
    for name, f in D.FAMILIES.items():
        seeds = [ck.rng.random() for _ in range(ck.n(150, 3000))]
        ck.validate("TrStats", core.pmap(lambda s: f(random.Random(s)), seeds), name)

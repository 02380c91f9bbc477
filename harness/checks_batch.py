"""Checks of batch runs (modules Batch, BatchPar)."""
import random

import core
import drv_batch as D

CFG = """INIT Init
NEXT Next
CONSTANTS NB = %d W = %d Size = %d Last = %d ByIndex = %s
INVARIANTS InOrder Accounted Once
"""


def orders(ck):
    out = []
    sizes = [(3, 2, 2, 1), (3, 3, 1, 1), (4, 2, 2, 2)] + ck.n([], [(4, 4, 2, 1), (5, 2, 1, 1), (4, 3, 3, 2)])
    for nb, w, size, last in sizes:
        o = ck.model("BatchPar", CFG % (nb, w, size, last, "TRUE"), env={"EMIT": "1"}, workers=1)
        out += core.lines_of(o, "@@O ")
    ck.refuted("BatchPar", CFG % (3, 2, 1, 1, "FALSE"), env={"EMIT": "0"})
    return out


def parallel(ck, accept=None):
    os_ = orders(ck)
    ck.extra["completion_orders"] = len(os_)
    if not ck.thorough:
        os_ = ck.rng.sample(os_, min(len(os_), 250))
    jobs = [(o, ck.rng.random()) for o in os_]
    ck.validate("TrBatch", core.pmap(lambda j: D.order_run(j[0], random.Random(j[1])), jobs),
                "parallel runs, completion orders of the model", accept)
    seeds = [ck.rng.random() for _ in range(ck.n(80, 1500))]
    ck.validate("TrBatch", core.pmap(lambda s: D.random_runs(random.Random(s), 3, ("parallel", "parallel", "insert")),
                                     seeds), "parallel runs, noisy schedules", accept)


def p16(ck):
    parallel(ck)
    seeds = [ck.rng.random() for _ in range(ck.n(250, 4000))]
    ck.validate("TrBatch", core.pmap(lambda s: D.random_runs(random.Random(s)), seeds), "random runs")


def p17_parallel(ck):
    parallel(ck)

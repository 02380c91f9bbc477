"""Checks of concurrent use (P15, P17): modules HybridConc, Linear, TrStorageLin, TrIndexLin."""
import random

import drv_conc as C    # first: replaces the locks before valori is imported
import core

HC = """INIT Init
NEXT Next
CONSTANTS Threads = {%s} Ids = {%s} Vals = {1,2} Limit = %d MaxOps = %d UseLock = %s
INVARIANTS Linearizable Bound Unique Coherent NoDeadlock
"""


def p15(ck):
    for lim in (0, 1):
        ck.model("HybridConc", HC % ("1,2", "1,2", lim, 2, "TRUE"))
    if ck.thorough:
        ck.model("HybridConc", HC % ("1,2,3", "1,2", 1, 1, "TRUE"))
        ck.model("HybridConc", HC % ("1,2", "1,2,3", 2, 2, "TRUE"))
        ck.model("HybridConc", HC % ("1,2", "1,2", 1, 3, "TRUE"), workers=8)
    ck.refuted("HybridConc", HC % ("1,2", "1,2", 1, 2, "FALSE"))
    kinds = (("memory", 0), ("hybrid", 0), ("hybrid", 1), ("hybrid", 2))
    seeds = [(ck.rng.choice(kinds), ck.rng.random()) for _ in range(ck.n(2500, 40000))]
    runs = core.pmap(lambda j: C.storage_history(j[0][0], j[0][1], random.Random(j[1])), seeds)
    ck.extra["schedules_executed"] = len(runs)
    ck.extra["preemption_points"] = sum(t[0]["steps"] for t in runs)
    ck.validate("TrStorageLin", C.dedup(runs), "random schedules")
    jobs = [(k, s, o, p, ck.rng.random()) for k in kinds for s in C.SUBJECT for o in C.OBSERVE for p in C.PREFIX]
    if not ck.thorough:
        jobs = ck.rng.sample(jobs, 220)
    runs = [t for x in core.pmap(lambda j: C.preemption_family(
        *j[0], j[1], j[2], j[3], random.Random(j[4]), points=ck.n(25, None), second=ck.n(0, 2)), jobs) for t in x]
    ck.extra["schedules_executed"] += len(runs)
    ck.extra["preemption_points"] += sum(t[0]["steps"] for t in runs)
    ck.validate("TrStorageLin", C.dedup(runs), "one operation interrupted at every point")


KINDS = ("flat", "hnsw", "ivf", "lsh", "annoy")


def p17(ck):
    ck.model("HybridConc", HC % ("1,2", "1,2", 1, 1, "TRUE"))
    seeds = [(KINDS[i % 5], ck.rng.random()) for i in range(ck.n(2000, 30000))]
    runs = core.pmap(lambda j: C.client_history(j[0], random.Random(j[1])), seeds)
    ck.extra["schedules_executed"] = len(runs)
    ck.extra["preemption_points"] = sum(t[0]["steps"] for t in runs)
    ck.validate("TrIndexLin", C.dedup(runs), "random schedules")
    jobs = [(k, ck.rng.randint(0, 10 ** 6), a, b, st) for k in KINDS for a in range(5) for b in range(5)
            for st in ck.n((ck.rng.choice(["memory", "disk", "hybrid"]),), ("memory", "disk", "hybrid"))]
    runs = [t for x in core.pmap(lambda j: C.client_preemption(
        j[0], j[1], j[2], j[3], points=ck.n(15, 200), storage=j[4]), jobs) for t in x]
    ck.extra["schedules_executed"] += len(runs)
    ck.extra["preemption_points"] += sum(t[0]["steps"] for t in runs)
    ck.validate("TrIndexLin", C.dedup(runs), "one call interrupted at many points")

"""Checks of profiler, analyzers, decorators and monitors (modules Tools, ProfGen, MonitorAlg)."""
import random

import core
import drv_tools as D

MON = """SPECIFICATION Spec
CONSTANTS Join = %s Guard = %s MaxStarts = %d
INVARIANTS OneThread Frozen
PROPERTY StopEnds
"""


GEN = """INIT Init
NEXT Next
CONSTANTS Names = {"a", "b"} Depth = %d Cap = %d Finally = %s
INVARIANT Recorded
"""


def p33(ck):
    ck.refuted("ProfGen", GEN % (2, 2, "FALSE"), env={"EMIT": "0"})
    g = ck.edges("ProfGen", GEN % (3, ck.n(2, 3), "TRUE"), env={"EMIT": "1"})
    jobs = [(t, ck.rng.random()) for t in g.tours(ck.rng, 40)]
    ck.validate("TrTools", core.pmap(lambda j: D.blocks(random.Random(j[1]), j[0]), jobs), "all transitions")
    seeds = [ck.rng.random() for _ in range(ck.n(1000, 20000))]
    ck.validate("TrTools", core.pmap(lambda s: D.analysis(random.Random(s)), seeds), "random use")


def p34(ck):
    ck.model("MonitorAlg", MON % ("TRUE", "TRUE", ck.n(3, 5)))
    ck.refuted("MonitorAlg", MON % ("FALSE", "TRUE", 2))
    ck.refuted("MonitorAlg", MON % ("TRUE", "FALSE", 2))
    seeds = [ck.rng.random() for _ in range(ck.n(600, 12000))]
    slow = [0.3, 1.2, 2.6, 6.0] + ([12.0, 31.0] if ck.thorough else [])
    traces = core.pmap(lambda j: D.patient(j) if j >= 0.3 and j in slow else D.tools(random.Random(j)), slow + seeds)
    ck.validate("TrTools", traces[:len(slow)], "long intervals")
    ck.validate("TrTools", traces[len(slow):], "random use")

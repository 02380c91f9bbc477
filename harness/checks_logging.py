"""Checks of the logging helpers (modules Logging, LogGen)."""
import core
import drv_logging as D

GEN = """INIT Init
NEXT Next
CONSTANTS Names = {"valori.a", "b"} Levels = {10, 20, 40} Release = %s Guard = %s
INVARIANT Once
"""


def p37(ck):
    g = ck.edges("LogGen", GEN % ("TRUE", "TRUE"), env={"EMIT": "1"})
    ck.refuted("LogGen", GEN % ("FALSE", "TRUE"), env={"EMIT": "0"})
    ck.refuted("LogGen", GEN % ("TRUE", "FALSE"), env={"EMIT": "0"})
    jobs = [(t, ck.rng.random()) for t in g.tours(ck.rng, 40) for _ in range(ck.n(1, 8))]
    ck.validate("TrLogging", core.pmap(lambda j: D.replay(j[1], j[0]), jobs), "all transitions")
    seeds = [ck.rng.random() for _ in range(ck.n(400, 8000))]
    ck.validate("TrLogging", core.pmap(D.random_run, seeds), "random histories")

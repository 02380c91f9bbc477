"""Checks of the persistence managers (modules Persist, PersistImpl)."""
import random

import core
import drv_persist as D


def cfg(whats, atomic, maxcnt, interval=2, vals="1,2"):
    return """INIT Init
NEXT Next
CONSTANTS Vals={%s} Names={"f"} Interval=%d MaxCnt=%d Atomic=%s Whats={%s}
INVARIANTS Compatible Reads Fresh LogOrdered
""" % (vals, interval, maxcnt, atomic, ",".join('"%s"' % w for w in whats))


def models(ck, maxcnt):
    ck.model("PersistImpl", cfg(["state", "index"], "FALSE", maxcnt), env={"EMIT": "0"}, workers=6)
    ck.model("PersistImpl", cfg(["state", "index"], "FALSE", 3, interval=1), env={"EMIT": "0"}, workers=6)


def run_jobs(ck, f, n):
    seeds = [ck.rng.random() for _ in range(n)]
    return core.pmap(lambda s: f(random.Random(s)), seeds)


def crashes(ck, jobs, label):
    traces, total = [], 0
    for t, p in core.pmap(lambda j: D.crash_family(j[0], random.Random(j[1]), only=j[2]), jobs):
        traces += t
        total += p
    ck.extra["crash_and_fault_points_executed"] = ck.extra.get("crash_and_fault_points_executed", 0) + total
    ck.validate("TrPersist", traces, label)
    return total, len(traces)


def p13(ck):
    models(ck, 3)
    ck.validate("TrPersist", run_jobs(ck, lambda r: D.random_history(
        r.choice(["tensor", "tensor", "inc"]), r, 60), ck.n(80, 800)), "random histories")
    for names in sorted(D.NAMES):
        ck.validate("TrPersist", run_jobs(ck, lambda r: D.random_history(
            r.choice(["tensor", "inc"]), r, 40, names=D.NAMES[names]), ck.n(10, 80)), "names " + names)
    ck.validate("TrPersist", run_jobs(ck, lambda r: D.random_history(
        r.choice(["tensor", "inc"]), r, 50, faults=0.4, restart=0.1), ck.n(60, 600)), "failing saves")
    ck.level = "fault_enumeration"
    jobs = [(k, ck.rng.random(), w) for k in ("tensor", "inc") for w in ("state", "vectors", "index")
            for _ in range(ck.n(1, 8))]
    total, n = crashes(ck, jobs, "crash and fault points")
    ck.extra["evaluations"], ck.extra["distinct_nontrivial"] = total, n
    ck.extra["rule"] = ("one interrupted save per evaluation: killed at every C call, killed inside a "
                        "write, or given an OSError; non-trivial = distinct (outcome, directory content)")


def p14(ck):
    models(ck, ck.n(4, 5))
    g = ck.edges("PersistImpl", cfg(["state", "index"], "TRUE", ck.n(4, 5)), env={"EMIT": "1"})
    tours = list(g.tours(ck.rng, 60, limit=ck.n(3000, None)))
    ck.validate("TrPersist", core.pmap(lambda t: D.replay("inc", t[0], random.Random(t[1])),
                                       [(t, ck.rng.random()) for t in tours]), "model behaviours")
    ck.validate("TrPersist", run_jobs(ck, lambda r: D.random_history("inc", r, 80, restart=0.15),
                                      ck.n(60, 600)), "restart histories")
    ck.validate("TrPersist", run_jobs(ck, lambda r: D.random_history(
        "inc", r, 60, faults=0.3, restart=0.15), ck.n(60, 600)), "failing saves")
    crashes(ck, [("inc", ck.rng.random(), None) for _ in range(ck.n(4, 30))], "crash points")

"""Checks of the storage properties (P01-P06)."""
import random

import core
import drv_storage as D

KINDS = ("memory", "disk", "hybrid")


def p01(ck):
    D.step_model(ck, "hybrid", "abc" if ck.thorough else "ab", 1)
    if ck.thorough:
        D.step_model(ck, "hybrid", "abc", 2)
    traces = []
    for kind, lim in (("memory", 0), ("disk", 0), ("hybrid", 2)):
        g = D.graph(ck, "hybrid" if kind == "hybrid" else "disk", lim)
        for rep in range(ck.n(1, 6)):
            for tour in g.tours(ck.rng, 250):
                traces.append(D.replay(kind, lim, tour, ck.rng, ids=D.plain_ids(ck.rng, 3)))
    ck.validate("TrStorage", traces, "model behaviours")
    traces = []
    for kind in KINDS:
        for _ in range(ck.n(10, 120)):
            traces.append(D.random_history(kind, ck.rng.choice([1, 2, 5, 100]), ck.rng,
                                           ck.rng.choice([20, 60, 150]),
                                           D.plain_ids(ck.rng, ck.rng.choice([1, 3, 8]))))
    ck.validate("TrStorage", traces, "random histories")


def p02_storage(ck):
    traces = []
    for kind, lim in (("memory", 0), ("disk", 0), ("hybrid", 2), ("hybrid", 1)):
        g = D.graph(ck, "hybrid" if kind == "hybrid" else "disk", lim)
        for rep in range(ck.n(1, 4)):
            for tour in g.tours(ck.rng, 250, limit=ck.n(1500, None)):
                traces.append(D.replay(kind, lim, tour, ck.rng, alias=True))
        for _ in range(ck.n(5, 60)):
            traces.append(D.random_history(kind, lim, ck.rng, 80, D.plain_ids(ck.rng, 4), alias=True))
    ck.validate("TrStorage", traces, "storage histories with in-place changes")


def p03(ck):
    D.step_model(ck, "disk", "abc", 1)
    traces = []
    groups = D.CONFUSABLE + ["traversal", "traversal"]
    for rep in range(ck.n(1, 8)):
        for kind in KINDS:
            for g in groups:
                traces.append(D.id_history(kind, ck.rng, g, ck.n(60, 150)))
        # random mixtures and random unicode
        for kind in KINDS:
            for _ in range(ck.n(4, 20)):
                pool = [i for g in D.CONFUSABLE for i in g]
                mix = ck.rng.sample(pool, 10)
                mix += ["".join(chr(ck.rng.choice([ck.rng.randint(1, 127), ck.rng.randint(0, 0x2fff),
                                                   ck.rng.randint(0xe000, 0x10ffff)]))
                                for _ in range(ck.rng.randint(1, 4))) for _ in range(4)]
                traces.append(D.id_history(kind, ck.rng, mix, ck.n(60, 150)))
    # pairs: store one, look at the other
    for kind in ("disk", "hybrid"):
        for g in D.CONFUSABLE:
            for a in g:
                names = {"i%d" % j: s for j, s in enumerate(g)}
                run = D.Run(kind, 1, D.Vocab(ck.rng, 3, 2, plain=True), ids=names)
                run.known_ids = tuple(names)
                run.open()
                t = "i%d" % g.index(a)
                run.mutate("store", t, 1, 1)
                run.look()
                run.mutate("delete", t)
                run.look()
                traces.append(run.done())
    ck.validate("TrStorage", traces, "confusable ids")


def p04(ck):
    traces = []
    for lim in (0, 1, 2):
        D.step_model(ck, "hybrid", "ab" if lim == 0 else "abc" if ck.thorough else "ab", lim)
        g = D.graph(ck, "hybrid", lim)
        for rep in range(ck.n(1, 5)):
            for tour in g.tours(ck.rng, 250):
                traces.append(D.replay("hybrid", lim, tour, ck.rng, watch=0.3, layer=True))
    ck.validate("TrStorage", traces, "model behaviours")
    traces = []
    for _ in range(ck.n(25, 250)):
        lim = ck.rng.choice([0, 1, 2, 3, 5, 10])
        traces.append(D.random_history("hybrid", lim, ck.rng, 120,
                                       D.plain_ids(ck.rng, ck.rng.choice([2, 4, 8, 12])),
                                       layer=True, alias=ck.rng.random() < 0.3))
    ck.validate("TrStorage", traces, "random histories")


def p05_storage(ck):
    traces = []
    for kind, lim in (("disk", 0), ("hybrid", 1), ("hybrid", 2)):
        g = D.graph(ck, "hybrid" if kind == "hybrid" else "disk", lim)
        for rep in range(ck.n(1, 4)):
            for tour in g.tours(ck.rng, 120, limit=ck.n(1500, None)):
                # restart often
                t2 = []
                for op in tour:
                    t2.append(op)
                    if op["op"] not in ("open", "restart") and ck.rng.random() < 0.15:
                        t2 += [dict(op, op="restart"), dict(op, op="open")]
                traces.append(D.replay(kind, lim, t2, ck.rng))
        for _ in range(ck.n(8, 100)):
            traces.append(D.random_history(kind, lim, ck.rng, 100, D.plain_ids(ck.rng, 5), restart=0.12))
    for kind in ("disk", "hybrid"):
        for g in D.CONFUSABLE:
            for _ in range(ck.n(1, 6)):
                traces.append(D.id_history(kind, ck.rng, g, ck.n(40, 120), restart=0.2))
    ck.validate("TrStorage", traces, "restart histories")


def p06(ck):
    D.step_model(ck, "disk", "abc", 0)
    D.step_model(ck, "hybrid", "ab", 1)
    ck.level = "fault_enumeration"
    fixed = [
        ([("store", "a", 1, 1), ("store", "b", 2, 2)], ("store", "a", 3, 3)),
        ([("store", "a", 1, 1), ("store", "b", 2, 0)], ("update", "a", 3, 2)),
        ([("store", "a", 1, 1)], ("update", "a", 2, 0)),
        ([("store", "a", 1, 0)], ("store", "a", 2, 2)),
        ([("store", "b", 1, 1)], ("store", "a", 2, 2)),
        ([("store", "a", 1, 1), ("store", "b", 2, 2)], ("delete", "a", 0, 0)),
        ([("store", "a", 1, 1), ("delete", "a", 0, 0)], ("store", "a", 2, 0)),
    ]
    total = 0
    traces = []
    jobs = []
    for kind in ("disk", "hybrid"):
        scen = list(fixed) + [D.crash_scenario(ck.rng, kind) for _ in range(ck.n(3, 60))]
        for sc in scen:
            jobs.append((kind, sc, ck.rng.random(), ck.rng.choice([0, 1, 2])))
    for t, p in core.pmap(lambda j: D.crash_family(ck, j[0], j[1], random.Random(j[2]), lim=j[3]),
                          jobs):
        traces += t
        total += p
    ck.extra["crash_and_fault_points_executed"] = total
    ck.extra["evaluations"] = total
    ck.extra["distinct_nontrivial"] = len(traces)
    ck.extra["rule"] = ("one interrupted store/update/delete per evaluation: killed at every C call, "
                        "killed by the kernel inside a write, or given an OSError at every file-system "
                        "event; non-trivial = distinct (outcome, resulting directory content)")
    ck.validate("TrStorage", traces, "crash and fault points")

"""Checks of the vector indices and of the client on top of them (module Index)."""
import random

import core
import drv_index as D

KINDS = ("flat", "hnsw", "ivf", "lsh", "annoy")
BASE = dict(insert=6, update=3, delete=3, search=6, stats=1, storage=1, build=1)


def histories(ck, label, kinds, n, steps, weights, accept=None, **kw):
    seeds = [(k, ck.rng.random()) for k in kinds for _ in range(n)]

    def one(j):
        rng = random.Random(j[1])
        args = {a: (v(rng) if callable(v) else v) for a, v in kw.items()}
        return D.random_history(j[0], rng, rng.randint(steps // 2, steps), weights, **args)
    ck.validate("TrIndex", core.pmap(one, seeds), label, accept=accept)


def behaviours(ck, label, kinds, limit, maxlen=60, accept=None, files=(), **kw):
    jobs = []
    for k in kinds:
        g = D.graph(ck, k, files=files if k == "annoy" else ())
        for tour in g.tours(ck.rng, maxlen, limit=limit):
            jobs.append((k, tour, ck.rng.random()))

    def one(j):
        rng = random.Random(j[2])
        args = {a: (v(rng) if callable(v) else v) for a, v in kw.items()}
        return D.replay(j[0], j[1], rng, **args)
    ck.validate("TrIndex", core.pmap(one, jobs), label, accept=accept)


def clauses(*names):
    """Only rejections that name one of these clauses (searches) or operations."""
    def f(trace, j, text):
        if text.startswith("Undecidable"):        # the specification cannot even read it
            return trace[j]["op"] == "search"
        return any('"%s"' % n in text.split(" in ")[0] for n in names)
    return f


SOUND = ("not live", "more than k", "duplicates", "metadata", "score", "order", "error",
         "threshold", "search")
client = lambda rng: rng.random() < 0.4      # noqa: E731


def p07(ck):
    behaviours(ck, "model behaviours", KINDS, ck.n(1200, None), accept=clauses(*SOUND), client=client,
               look=0.3)
    histories(ck, "random histories", KINDS, ck.n(30, 400), 60, BASE, accept=clauses(*SOUND),
              client=client)
    histories(ck, "larger indices", KINDS, ck.n(3, 40), 60, dict(BASE, insert=12, delete=2), maxn=120,
              accept=clauses(*SOUND), npool=24)


    crowds(ck, KINDS, ck.n(1, 10), accept=clauses(*SOUND))


def crowds(ck, kinds, n, accept=None, **kw):
    seeds = [(k, ck.rng.random()) for k in kinds for _ in range(n)]
    ck.validate("TrIndex", core.pmap(
        lambda j: D.crowd(j[0], random.Random(j[1]), **{a: v(random.Random(j[1])) for a, v in kw.items()}), seeds),
        "hundreds of vectors", accept=accept)


def p08(ck):
    acc = clauses("count", "not nearest", "error", "order", "score", "search")
    cfgs = {
        "flat": lambda rng: {},
        "ivf": lambda rng: {"n_clusters": rng.choice([1, 2, 3, 5]), "n_probes": 5},
        "hnsw": lambda rng: {"ef_search": 500, "m": rng.choice([1, 2, 3, 16])},
        "annoy": lambda rng: {},
    }
    for k in cfgs:
        behaviours(ck, "model behaviours " + k, [k], ck.n(1200, None), accept=acc, cfg=cfgs[k], look=0.4,
                   client=client)
        histories(ck, "random histories " + k, [k], ck.n(30, 400), 60, dict(BASE, search=10), accept=acc,
                  cfg=cfgs[k], client=client)
        histories(ck, "larger indices " + k, [k], ck.n(4, 40), 60, dict(BASE, insert=12), accept=acc,
                  cfg=cfgs[k], maxn=100, npool=24)
        crowds(ck, [k], ck.n(2, 10), accept=acc, cfg=cfgs[k])


def p09(ck):
    w = dict(BASE, insert=8, update=5, delete=6, search=3, stats=3, storage=2)
    behaviours(ck, "model behaviours", KINDS, ck.n(1500, None), client=client, look=0.35)
    histories(ck, "random histories", KINDS, ck.n(30, 400), 70, w, client=client)


def p10(ck):
    w = dict(insert=6, update=4, delete=4, look=6, search=1, bad=1)
    fam = D.FAMILY
    behaviours(ck, "model behaviours", fam, ck.n(1200, None), client=client, look=0.5)
    histories(ck, "random histories", fam, ck.n(25, 300), 50, dict(w, close=0.5, init=0.5), client=client)
    histories(ck, "failing storage", fam, ck.n(40, 500), 50, w, fault_rate=0.35, client=client)


def after_bad(trace, j, text):
    return any(e["op"] == "bad" for e in trace[: j + 1])


def p11_index(ck):
    w = dict(insert=4, update=2, delete=2, search=2, bad=9, stats=2, look=2)
    histories(ck, "rejected input", KINDS, ck.n(40, 500), 60, w, accept=after_bad, client=client)


def restarted(trace, j, text):
    return any(e["op"] in ("close", "newindex") for e in trace[: j + 1]) or \
        sum(e["op"] == "init" for e in trace[: j + 1]) > 1 or trace[j]["op"] == "init"


def p12_index(ck):
    w = dict(insert=6, update=2, delete=2, search=3, close=2, init=2, newindex=1, look=2, stats=1, build=1)
    behaviours(ck, "model behaviours", KINDS, ck.n(800, None), accept=restarted, client=client, look=0.25)
    histories(ck, "close and reopen", KINDS, ck.n(30, 400), 50, w, accept=restarted, client=client)
    histories(ck, "failing initialize", D.FAMILY, ck.n(15, 200), 40, w, accept=restarted, fault_rate=0.1)


def p02_index(ck):
    w = dict(BASE, look=2)
    histories(ck, "aliased arguments and results (indices)", KINDS, ck.n(25, 300), 40, w, alias=True,
              client=client)


def p05_index(ck):
    w = dict(insert=6, update=3, delete=3, search=3, close=1, init=1, newindex=3, look=3)
    histories(ck, "indices rebuilt from disk", D.FAMILY, ck.n(30, 400), 50, w,
              storage=lambda rng: rng.choice(["disk", "hybrid"]), client=client)


ALG = "INIT Init\nNEXT Next\n"
HNSW_ALG = ALG + """CONSTANTS N = %d M = %d Top = %d Jump = %s Sweep = %s
INVARIANTS Full Exact Consistent
"""
IVF_ALG = ALG + """CONSTANTS Ids = %s Len1 = %d NClus = %d Tie = "%s" Move = %s Wipe = %s
INVARIANTS Partition Self AllProbes
"""
LSH_ALG = ALG + """CONSTANTS Ids = %s Vecs = %s Tables = {1, 2} OldCode = %s AllTables = %s
INVARIANTS Self Filed
"""
ANNOY_ALG = ALG + """CONSTANTS Items = %s Trees = 2 Extra = %d LiveBudget = %s
INVARIANTS AllFound
"""


def p25(ck):
    ck.model("AnnoyAlg", ANNOY_ALG % (ck.n("{1, 2, 3}", "{1, 2, 3, 4}"), 0, "FALSE"), workers=4)
    ck.refuted("AnnoyAlg", ANNOY_ALG % ("{1, 2, 3}", 1, "FALSE"))
    ck.refuted("AnnoyAlg", ANNOY_ALG % ("{1, 2, 3}", 0, "TRUE"))
    w = dict(insert=5, update=2, delete=3, search=6, build=3, save=3, load=3, look=2, stats=1, clear=0.3,
             close=0.3, init=0.3)
    behaviours(ck, "model behaviours", ["annoy"], ck.n(None, 20000), files=("f",) if ck.thorough else (),
               look=0.4)
    histories(ck, "build, save, load", ["annoy"], ck.n(250, 2500), 50, w)
    # many builds of the same few vectors: the trees must not depend on the schedule of threads
    histories(ck, "many builds", ["annoy"], ck.n(60, 600), 70,
              dict(insert=2, update=3, search=4, build=5, save=3, load=3),
              cfg=lambda rng: {"num_trees": rng.choice([2, 5, 10]), "search_k": -1, "build_on_disk": rng.random() < 0.7})


def p26(ck):
    ck.model("LshAlg", LSH_ALG % ("{1, 2, 3}", ck.n("{0, 1, 2}", "{0, 1, 2, 3}"), "TRUE", "TRUE"), workers=4)
    ck.refuted("LshAlg", LSH_ALG % ("{1, 2}", "{0, 1, 2}", "FALSE", "TRUE"))
    ck.refuted("LshAlg", LSH_ALG % ("{1, 2}", "{0, 1, 2}", "TRUE", "FALSE"))
    w = dict(insert=6, update=4, delete=4, search=8, stats=3, clear=0.3, close=0.2, init=0.4)
    behaviours(ck, "model behaviours", ["lsh"], ck.n(2500, None), look=0.5)
    histories(ck, "random histories", ["lsh"], ck.n(120, 1500), 70, w, client=client)


def p27(ck):
    small = ("{1, 2, 3}", 4, 2)
    ck.model("IvfAlg", IVF_ALG % ((small if not ck.thorough else ("{1, 2, 3, 4}", 5, 3)) + ("first", "TRUE", "TRUE")),
             workers=4)
    for variant in (("last", "TRUE", "TRUE"), ("first", "FALSE", "TRUE"), ("first", "TRUE", "FALSE")):
        ck.refuted("IvfAlg", IVF_ALG % (small + variant))
    w = dict(insert=7, update=5, delete=4, search=8, stats=4, close=0.4, init=0.4)
    cfg = lambda rng: {"n_probes": rng.choice([1, 1, 1, 2])}       # noqa: E731
    behaviours(ck, "model behaviours", ["ivf"], ck.n(2500, None), look=0.5, cfg=cfg)
    histories(ck, "random histories", ["ivf"], ck.n(100, 1200), 70, w, client=client, cfg=cfg)


def p28(ck):
    for m in (1, 2):
        ck.model("HnswAlg", HNSW_ALG % (3, m, ck.n(1, 2), "TRUE", "TRUE"), workers=4)
    if ck.thorough:
        ck.model("HnswAlg", HNSW_ALG % (4, 1, 1, "TRUE", "TRUE"), workers=4)
    ck.refuted("HnswAlg", HNSW_ALG % (3, 1, 1, "FALSE", "TRUE"))
    ck.refuted("HnswAlg", HNSW_ALG % (3, 1, 1, "TRUE", "FALSE"))
    w = dict(insert=6, update=3, delete=6, search=8, stats=3, close=0.2, init=0.2)
    cfg = lambda rng: {"m": rng.choice([1, 1, 2, 4]), "ef_search": rng.choice([1, 1, 2, 3, 50])}  # noqa: E731
    behaviours(ck, "model behaviours", ["hnsw"], ck.n(2500, None), look=0.5, cfg=cfg)
    histories(ck, "random histories", ["hnsw"], ck.n(120, 1500), 80, w, client=client, cfg=cfg)
    histories(ck, "larger graphs", ["hnsw"], ck.n(12, 150), 80, dict(w, insert=14), client=client, cfg=cfg,
              maxn=150, npool=24)

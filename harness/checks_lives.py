"""P12 for storage backends, persistence managers, quantizers and the client."""
import random

import core
import drv_lives as D
import drv_quant

LIVES = "INIT Init\nNEXT Next\nINVARIANT OneOpen\n"
CLIENT = 'INIT Init\nNEXT Next\nCONSTANT Parts={"storage","index","quantization","persistence"}\nINVARIANT TypeOK\n'
QUANT = "INIT Init\nNEXT Next\nINVARIANT TypeOK\n"


def p12_rest(ck):
    g = ck.edges("LivesGen", LIVES, env={"EMIT": "1"})

    def tours(graph, n, maxlen=60):
        return [(t, ck.rng.random()) for _ in range(n) for t in graph.tours(ck.rng, maxlen)]

    def jobs(f, todo):
        return core.pmap(lambda j: f(j[0], random.Random(j[1])), todo)
    for kind, lim in (("memory", 0), ("disk", 0), ("hybrid", 1), ("hybrid", 5)):
        ck.validate("TrStorage", jobs(lambda t, r: D.storage_lives(kind, lim, t, r), tours(g, ck.n(4, 60))),
                    "lives of storage backends: " + kind)
    for kind in ("tensor", "inc"):
        ck.validate("TrPersist", jobs(lambda t, r: D.persist_lives(kind, t, r), tours(g, ck.n(4, 60))),
                    "lives of persistence managers: " + kind)
    q = ck.edges("QuantGen", QUANT, env={"EMIT": "1"})
    for kind in ("scalar", "product", "saq"):
        ck.validate("TrQuant", jobs(lambda t, r: drv_quant.replay(kind, r, t), tours(q, ck.n(1, 10), 40)),
                    "lives of quantizers: " + kind)
    c = ck.edges("ClientGen", CLIENT, env={"EMIT": "1"})
    ck.validate("TrClient", jobs(lambda t, r: D.client_lives(t, r), tours(c, ck.n(12, 200), 40)),
                "lives of clients")


def p11_rest(ck):
    """Bad training data and codes for quantizers; uninitialized clients (also after a failed initialize)."""
    def bad(trace, j, text):
        return any(e["op"] in ("badtrain", "badquant") for e in trace[: j + 1])

    def closed(trace, j, text):
        life = [e for e in trace[: j + 1] if e["op"] in ("init", "close", "new")]
        return not life or life[-1]["op"] != "init" or life[-1]["fail"] != ""

    def jobs(f, todo):
        return core.pmap(lambda j: f(j[0], random.Random(j[1])), todo)
    q = ck.edges("QuantGen", QUANT, env={"EMIT": "1"})
    for kind in ("scalar", "product", "saq"):
        todo = [(t, ck.rng.random()) for _ in range(ck.n(2, 20)) for t in q.tours(ck.rng, 40)]
        ck.validate("TrQuant", jobs(lambda t, r: drv_quant.replay(kind, r, t), todo), "bad vectors for quantizers: " + kind,
                    accept=bad)
    c = ck.edges("ClientGen", CLIENT, env={"EMIT": "1"})
    todo = [(t, ck.rng.random()) for _ in range(ck.n(12, 200)) for t in c.tours(ck.rng, 40)]
    ck.validate("TrClient", jobs(lambda t, r: D.client_lives(t, r), todo), "clients that are not open", accept=closed)
    g = ck.edges("LivesGen", LIVES, env={"EMIT": "1"})
    for kind, lim in (("memory", 0), ("disk", 0), ("hybrid", 1)):
        todo = [(t, ck.rng.random()) for _ in range(ck.n(4, 40)) for t in g.tours(ck.rng, 60)]
        ck.validate("TrStorage", jobs(lambda t, r: D.storage_lives(kind, lim, t, r), todo), "closed storage: " + kind,
                    accept=lambda t, j, x: [e["op"] for e in t[: j + 1] if e["op"] in ("open", "init", "close", "new", "reset")][-1] in ("close", "new", "reset"))

"""Concurrent histories of the real storage backends and of the client, run
under the scheduler of sched.py and recorded for TrStorageLin / TrIndexLin."""
import random

import sched
sched.install()     # before valori is imported
import valori_env  # noqa: F401,E402
import drv_index as DI  # noqa: E402
import drv_storage as DS  # noqa: E402
from values import Vocab  # noqa: E402


class Recorder:
    """Turns the sequential event of a driver call into call/ret events."""

    def __init__(self, run):
        self.run, self.log = run, []
        run.alias = False

    def do(self, t, f):
        """f() makes the driver append exactly one event to a private list."""
        holder = {"op": "call", "t": t, "e": None}
        self.log.append(holder)
        f(holder)
        self.log.append({"op": "ret", "t": t})

    def events(self):
        out = []
        for e in self.log:
            if e["op"] == "call" and e["e"] is None:
                out.append({"op": "stuck", "t": e["t"]})
                return out
            out.append(e)
        return out


class Local:
    """A view of a driver run whose events go to a list of its own."""

    def __init__(self, run):
        self.__dict__["_run"] = run
        self.__dict__["ev"] = []

    def __getattr__(self, n):
        a = getattr(type(self._run), n, None)
        if callable(a) and not isinstance(a, (staticmethod, classmethod)):
            return a.__get__(self)
        return getattr(self._run, n)

    def __setattr__(self, n, v):
        if n == "ev":
            self.__dict__["ev"] = v
        else:
            setattr(self._run, n, v)


def choice(rng, n):
    c = rng.random()
    if c < 0.35:
        return sched.random_choice(rng, rng.choice([0.02, 0.05, 0.1, 0.3]))
    if c < 0.8:
        return sched.pct(rng, n, rng.choice([60, 150, 400, 1000]), rng.choice([1, 2, 3, 4]))
    return sched.random_choice(rng, 0.7)


def storage_program(rng, ids, nops):
    ops = []
    for _ in range(nops):
        o = rng.choice(["store", "store", "update", "update", "delete", "get", "get", "list", "stats"])
        ops.append((o, rng.choice(ids), rng.randint(1, 6), rng.choice([0, 1, 2, 3])))
    return ops


def storage_history(kind, lim, rng, nthreads=None, nops=None, prefix=None, programs=None,
                    chooser=None, opcodes=None, nids=None):
    ids = {"a": "id-1", "b": "id/2", "c": "3", "d": "x.y"}
    toks = list(ids)[: nids or rng.choice([1, 2, 2, 3])]
    run = DS.Run(kind, lim, Vocab(rng, 6, 3), ids={t: ids[t] for t in toks})
    run.known_ids = tuple(toks)
    run.open()
    for o, i, v, m in (prefix if prefix is not None else storage_program(rng, toks, rng.randint(0, 4))):
        one(run, o, i, v, m)
    n = nthreads or rng.choice([2, 2, 3])
    programs = programs or [storage_program(rng, toks, nops or rng.randint(1, 4)) for _ in range(n)]
    rec = Recorder(run)

    def thread(t):
        def body():
            for o, i, v, m in programs[t]:
                def f(holder):
                    v_ = Local(run)
                    one(v_, o, i, v, m)
                    e = v_.ev[0]
                    if e["op"] == "stats":
                        e["op"] = "cstats"
                    holder["e"] = e
                rec.do(t + 1, f)
        return body

    s = sched.Sched(chooser or choice(rng, n), opcodes=(rng.random() < 0.25) if opcodes is None else opcodes)
    s.run([thread(t) for t in range(n)])
    run.ev += rec.events()
    if run.ev[-1]["op"] != "stuck" and not s.dead:
        run.look(layer=kind == "hybrid")
        if kind == "hybrid":
            run.new()
            run.open()
            run.look()
    elif run.ev[-1]["op"] != "stuck":
        run.ev.append({"op": "stuck", "t": 0})
    run.ev[0]["steps"] = s.step
    return run.done()


def one(run, o, i, v, m):
    if o == "get":
        run.get(i)
    elif o == "list":
        run.list()
    elif o == "stats":
        run.stats()
    elif o == "delete":
        run.mutate("delete", i)
    else:
        run.mutate(o, i, v, m)


OBSERVE = [[("list", "a", 0, 0), ("stats", "a", 0, 0), ("get", "a", 0, 0), ("get", "b", 0, 0)],
           [("get", "a", 0, 0), ("list", "a", 0, 0), ("stats", "a", 0, 0)],
           [("update", "a", 5, 2), ("get", "a", 0, 0), ("get", "b", 0, 0)],
           [("store", "a", 5, 2), ("get", "a", 0, 0)],
           [("store", "b", 5, 0), ("get", "a", 0, 0), ("get", "b", 0, 0), ("get", "a", 0, 0)],
           [("delete", "a", 0, 0), ("get", "a", 0, 0), ("store", "a", 6, 0)],
           [("stats", "a", 0, 0), ("delete", "a", 0, 0), ("stats", "a", 0, 0)]]
SUBJECT = [("store", "a", 4, 1), ("update", "a", 4, 0), ("delete", "a", 0, 0), ("get", "a", 0, 0),
           ("list", "a", 0, 0), ("stats", "a", 0, 0)]
PREFIX = [[], [("store", "a", 1, 2)], [("store", "a", 1, 2), ("store", "b", 2, 0)],
          [("store", "b", 2, 0), ("store", "a", 1, 2), ("get", "b", 0, 0)]]


def preemption_family(kind, lim, subject, observer, prefix, rng, points=None, second=0):
    """One operation, interrupted at every point (or `points` of them) by another
    thread's operations.

    second > 0: that many runs also switch back in the middle of the interruption."""
    total = [1]

    def go(k, back=None):
        used = []

        def ch(step, me, run):
            if me is None:
                return 0 if step == 0 else run[0]
            if step == k and 1 in run:
                used.append(1)
                return 1
            if back and step == k + back and 0 in run:
                return 0
            if not used and 1 in run and 0 in run:
                total[0] = step
            return me
        return storage_history(kind, lim, random.Random(1), 2, prefix=prefix,
                               programs=[[subject], observer], chooser=ch, opcodes=False, nids=2)

    out = [go(0)]
    ks = range(1, total[0] + 1)
    if points and points < len(ks):
        ks = sorted(rng.sample(list(ks), points))
    for k in ks:
        out.append(go(k))
        for _ in range(second):
            out.append(go(k, rng.randint(1, 40)))
    return out


# ------------------------------------------------------------- the client
def client_run(kind, rng, **kw):
    import contextlib
    kw.setdefault("storage", rng.choice(["memory", "memory", "disk", "hybrid"]))
    kw.setdefault("dtypes", ("f4",))
    kw.setdefault("npool", 6)
    run = DI.new_run(kind, rng, client=True, **kw)
    run.mode = contextlib.nullcontext()
    return run


def client_program(rng, nops, P, M):
    ops = []
    for _ in range(nops):
        o = rng.choice(["insert", "insert", "insert", "update", "update", "delete", "search", "search", "stats"])
        n = rng.choice([1, 1, 2, 3])
        ops.append((o, [rng.randint(1, P) for _ in range(n)], [rng.randint(0, M) for _ in range(n)],
                    rng.random(), rng.choice([1, 2, 3, 10])))
    return ops


def client_op(run, op):
    o, vs, ms, x, k = op
    live = list(run.live)
    pick = live[int(x * len(live))] if live else run.id_tok("no-such-id")
    if o == "insert":
        run.insert(vs, ms)
    elif o == "update":
        run.update(pick, vs[0], ms[0])
    elif o == "delete":
        run.delete([pick] if len(vs) < 3 or len(live) < 2 else [pick, live[0] if live[0] != pick else live[1]])
    elif o == "search":
        run.search(vs[0], k)
    else:
        e = {"op": "cstats", "n": -1, "fault": False}
        try:
            s = run.db.get_stats()["index"]
            e["n"] = int(s["vector_count"] if run.kind in DI.FAMILY else s["num_vectors"])
            e["r"] = "ok"
        except Exception as ex:
            e["r"] = "err"
            e["x"] = type(ex).__name__ + ": " + str(ex)[:80]
        run.ev.append(e)


def client_history(kind, rng, prefix=None, programs=None, chooser=None, opcodes=None, nops=None, **kw):
    run = client_run(kind, rng, **kw)
    random.seed(rng.randint(0, 10 ** 9))
    run.init()
    P, M = len(run.pool), len(run.metas)
    for op in (prefix if prefix is not None else client_program(rng, rng.randint(0, 4), P, M)):
        if op[0] != "stats":
            client_op(run, op)
    n = len(programs) if programs else rng.choice([2, 2, 3])
    programs = programs or [client_program(rng, nops or rng.randint(1, 3), P, M) for _ in range(n)]
    rec = Recorder(run)

    def thread(t):
        def body():
            for op in programs[t]:
                def f(holder):
                    v = Local(run)
                    client_op(v, op)
                    holder["e"] = v.ev[0]
                rec.do(t + 1, f)
        return body

    s = sched.Sched(chooser or choice(rng, n), opcodes=(rng.random() < 0.2) if opcodes is None else opcodes)
    s.run([thread(t) for t in range(n)])
    run.ev += rec.events()
    if s.dead and run.ev[-1]["op"] != "stuck":
        run.ev.append({"op": "stuck", "t": 0})
    if run.ev[-1]["op"] != "stuck":
        run.look()
    run.ev[0]["steps"] = s.step
    return run.done()


def client_subjects(kind, P, M, rng):
    v = [rng.randint(1, P) for _ in range(6)]
    m = [rng.randint(0, M) for _ in range(6)]
    return ([("insert", v[:2], m[:2], 0, 1)], [("update", v[2:3], m[2:3], 0.0, 1)], [("delete", v[:1], m[:1], 0.0, 1)],
            [("search", v[3:4], m[3:4], 0, 10)], [("stats", v[:1], m[:1], 0, 1)])


def client_observers(P, M, rng):
    v = [rng.randint(1, P) for _ in range(6)]
    m = [rng.randint(0, M) for _ in range(6)]
    return ([("search", v[:1], m[:1], 0, 10), ("stats", v[:1], m[:1], 0, 1)],
            [("insert", v[1:3], m[1:3], 0, 1), ("search", v[:1], m[:1], 0, 10)],
            [("update", v[2:3], m[2:3], 0.0, 1), ("search", v[:1], m[:1], 0, 10)],
            [("delete", v[:1], m[:1], 0.0, 1), ("stats", v[:1], m[:1], 0, 1)],
            [("stats", v[:1], m[:1], 0, 1), ("delete", v[:1], m[:1], 0.9, 1), ("stats", v[:1], m[:1], 0, 1)])


def client_preemption(kind, seed, subject, observer, points=30, **kw):
    """One client call interrupted at up to `points` points by another thread's calls."""
    P, M = 4, 3

    def go(k):
        rng = random.Random(seed)
        used = []

        def ch(step, me, run):
            if me is None:
                return 0 if step == 0 else run[0]
            if step == k and 1 in run:
                used.append(1)
                return 1
            if 1 not in run or 0 not in run:
                return me
            if not used:
                total[0] = step
            return me
        prefix = [("insert", [1, 2], [1, 2], 0, 1), ("insert", [3], [0], 0, 1)]
        subj = client_subjects(kind, P, M, rng)[subject]
        obs = client_observers(P, M, rng)[observer]
        return client_history(kind, rng, prefix=prefix, programs=[subj, obs], chooser=ch,
                              opcodes=False, **kw)

    total = [1]
    out = [go(0)]
    n = total[0]
    rng = random.Random(seed + 7)
    for k in sorted(rng.sample(range(1, n + 1), min(points, n))):
        out.append(go(k))
    return out


def dedup(traces):
    import json
    seen = {}
    for t in traces:
        k = json.dumps([{a: b for a, b in t[0].items() if a != "steps"}] + t[1:], sort_keys=True)
        seen.setdefault(k, t)
    return list(seen.values())

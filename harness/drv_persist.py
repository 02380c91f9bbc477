"""Drives the real persistence managers and records traces for TrPersist."""
import copy
import datetime
import decimal
import json
import os
import random
import shutil

import numpy as np

import valori_env  # noqa: F401
import core
from faults import _Audit
from values import akey, array_pool, canon


def state_pool(rng, n):
    """n states that differ; anything pickle can store."""
    arrs = array_pool(rng, n)
    base = []
    for i, a in enumerate(arrs):
        s = {"i": i, "vec": a}
        r = rng.random()
        if r < 0.2:
            s["nested"] = {"x": [1, (2, 3.5), {"y": None}], "s": {1, 2}, "b": b"\0\xff"}
        elif r < 0.4:
            s["t"] = datetime.datetime(2020, 1, 1, 1), decimal.Decimal("1.10"), float("inf")
        elif r < 0.5:
            s = {}
            if any(canon(x) == canon(s) for x in base):
                s = {"again": i}
        elif r < 0.6:
            s["u"] = "\u2028\U0001f600", {(1, 2): True}
        elif r < 0.7:
            s["arrays"] = [b.copy() for b in arrs[:3]]
        elif r < 0.85:
            s = {i: a, (i, "x"): None, "%d" % i: b"s", 2.5: {i: "in"}, None: i, ("nested", (i,)): "t"}
        base.append(s)
    return base


IDS = [[], ["a"], ["a", "b", "c"], ["\u00e9", "\U0001f600", ""], [1, 2, 3], [10**15], ["x" * 300, "y"],
       ["1", "2", "3"], [0.5, 1.5], [True, False]]


def vectors_pool(rng, n):
    arrs = [a for a in array_pool(rng, 3 * n) if a.ndim][:n]
    while len(arrs) < n:
        arrs.append(np.full((2, len(arrs) + 1), 7, dtype="f4"))
    return [(a, rng.choice(IDS) if rng.random() < 0.5 else ["v%d" % i for i in range(a.shape[0])])
            for a in arrs]


NAMES = {
    "plain": ["a.npz", "b.pkl", "state.bin"],
    "bare": ["a", "b", "a.b"],
    "sub": ["x/a", "x/y/b.npz", "x.npz"],
    "odd": ["a b", "\u00e9\u6f22.npz", "-rf", "a.npz.npz", "x.tmp", "x", ".hidden"],
    "tmp": ["x", "x.tmp", "x.npz.tmp", "x.npz", ".tmp-x", "x.tmp.tmp"],
    "ckpt": ["checkpoint_a.pkl", "checkpoint.npz", "operations", "checkpoint_.pkl", "a"],
}


class PRun:
    def __init__(self, kind, rng, cfg=None, names=None, path=None, vocab=None):
        self.kind, self.rng = kind, rng
        self.cfg = dict(cfg or {})
        self.path = path or os.path.join(core.fresh_dir("pe"), "data")
        self.names = names or NAMES["plain"]
        if vocab is None:
            st = state_pool(rng, 5)
            vocab = {"state": st, "index": st[::-1], "vectors": vectors_pool(rng, 5)}
        self.vocab = vocab
        self.tok = {w: {self.key(w, v): i + 1 for i, v in enumerate(vs)} for w, vs in vocab.items()}
        self.ev = [{"op": "reset", "kind": kind}]
        self.new(first=True)

    @staticmethod
    def key(what, v):
        if what == "vectors":
            return (akey(np.asarray(v[0])), canon(list(v[1])))
        return canon(v)

    def new(self, first=False):
        from valori.persistence import IncrementalPersistence, TensorPersistence
        cls = TensorPersistence if self.kind == "tensor" else IncrementalPersistence
        self.pm = cls(dict(self.cfg, data_dir=self.path))
        if not first:
            self.ev.append({"op": "new"})

    def _simple(self, op, f):
        try:
            f()
            r = "ok"
        except Exception:
            r = "err"
        self.ev.append({"op": op, "r": r})

    def init(self):
        self._simple("init", lambda: self.pm.initialize())

    def close(self):
        self._simple("close", lambda: self.pm.close())

    def save(self, what, name, v, fault=None):
        """fault: None or a context manager during which the save runs."""
        e = {"op": "save", "what": what, "name": name, "v": v, "fault": fault is not None}
        val = self.vocab[what][v - 1]
        val = (val[0], list(val[1])) if what == "vectors" else copy.deepcopy(val)
        try:
            if fault:
                with fault:
                    r = self._save(what, name, val)
            else:
                r = self._save(what, name, val)
            e["r"] = "true" if r is True else "odd"
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__ + ": " + str(x)[:80]
        self.ev.append(e)
        return e["r"]

    def _save(self, what, name, val):
        if what == "state":
            return self.pm.save_state(val, name)
        if what == "index":
            return self.pm.save_index(val, name)
        return self.pm.save_vectors(val[0], val[1], name)

    def badsave(self, what, name):
        rng = self.rng
        if what == "vectors":
            val = rng.choice([(np.array([{}, None], dtype=object), ["a", "b"]),
                              (np.zeros((2, 2), "f4"), ["a", None]),
                              (np.zeros((2, 2), "f4"), [1, "a"]),
                              (np.zeros((2, 2), "f4"), ["a\0", "b"])])
        else:
            val = rng.choice([{"f": lambda: 0}, {"a": 1, "g": (x for x in [1])},
                              {"lock": __import__("threading").Lock()},
                              {"big": "x" * 100000, "f": open}]) if True else None
            if "big" in val:
                val["f"] = lambda: 1
        e = {"op": "badsave", "what": what, "name": name}
        try:
            self._save(what, name, val)
            e["r"] = "true"
        except Exception:
            e["r"] = "err"
        self.ev.append(e)

    def load(self, what, name, fault=False):
        e = {"op": "load", "what": what, "name": name, "v": 0, "fault": fault}
        try:
            if what == "vectors":
                r = self.pm.load_vectors(name)
                none = r is None or (isinstance(r, tuple) and r[0] is None and r[1] is None)
            else:
                r = self.pm.load_state(name) if what == "state" else self.pm.load_index(name)
                none = r is None
            e["r"] = "none" if none else "val"
            if not none:
                if what == "vectors" and not (isinstance(r, tuple) and isinstance(r[0], np.ndarray)):
                    e["v"] = -1
                else:
                    e["v"] = self.tok[what].get(self.key(what, r), -1)
                    if e["v"] == -1:
                        e["raw"] = repr(r)[:200]
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__ + ": " + str(x)[:80]
        self.ev.append(e)

    def stats(self):
        e = {"op": "stats", "cnt": 0, "logged": 0, "lastcp": 0}
        try:
            s = self.pm.get_stats()
            if s.get("status") == "not_initialized":
                e["r"] = "closed"
            else:
                e["r"] = "ok" if "error" not in s else "error"
                if self.kind == "inc":
                    e["cnt"], e["logged"] = s["operation_count"], s["logged_operations"]
                    e["lastcp"] = s["last_checkpoint"]
        except Exception:
            e["r"] = "err"
        self.ev.append(e)

    def oplog(self):
        p = os.path.join(self.path, "operations.log")
        if self.kind != "inc" or not os.path.exists(p):
            return
        e = {"op": "oplog", "ids": [], "r": "ok"}
        try:
            for line in open(p, encoding="utf-8"):
                e["ids"].append(int(json.loads(line)["operation_id"]))
        except Exception:
            e["r"] = "err"
        self.ev.append(e)

    def opened(self):
        for e in reversed(self.ev):
            if e["op"] in ("init", "close", "new", "reset", "crash"):
                return e["op"] == "init"

    def look(self):
        saved = {}
        for e in self.ev:
            if e["op"] == "save":
                saved.setdefault(e["name"], set()).add(e["what"])
        for n in self.names:
            for w in sorted(saved.get(n, {"vectors"})):
                self.load(w, n)
        if self.kind == "inc":
            self.load("state", "state")
            self.oplog()
        self.stats()

    def done(self):
        shutil.rmtree(self.path, ignore_errors=True)
        return self.ev


class AuditFault:
    """OSError at the n-th file-system event."""
    _a = None

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import sys
        if AuditFault._a is None:
            AuditFault._a = _Audit()
            sys.addaudithook(AuditFault._a.hook)
        a = AuditFault._a
        a.n, a.at, a.on = 0, self.n, True

    def __exit__(self, *x):
        AuditFault._a.on = False


class SizeFault:
    """No file can grow beyond n bytes."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *x):
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def whats(kind, rng):
    return rng.choice(["state", "vectors", "index"])


def name_for(run, rng, what):
    """Mostly keep one sort of data under one name."""
    ns = run.names
    if run.kind == "inc" and what == "state":
        return rng.choice(ns)
    k = {"state": 0, "vectors": 1, "index": 2}[what]
    pick = [n for i, n in enumerate(ns) if i % 3 == k] or ns
    return rng.choice(pick if rng.random() < 0.9 else ns)


def random_history(kind, rng, steps, restart=0.06, faults=0.0, names=None):
    cfg = {"compression": rng.random() < 0.5} if kind == "tensor" else {
        "checkpoint_interval": rng.choice([1, 2, 3, 5, 100])}
    run = PRun(kind, rng, cfg, names or NAMES[rng.choice(sorted(NAMES))])
    run.init()
    for _ in range(steps):
        c = rng.random()
        w = whats(kind, rng)
        n = name_for(run, rng, w)
        if c < 0.45:
            f = None
            if rng.random() < faults:
                f = AuditFault(rng.randint(1, 7)) if rng.random() < 0.5 else SizeFault(rng.choice(
                    [0, 1, 20, 60, 100, 130, 150, 200, 260, 300, 500, 1000, 2000, 4000]))
            run.save(w, n, rng.randint(1, 5), f)
        elif c < 0.5:
            run.badsave(w, n)
        elif c < 0.8:
            run.load(w, n)
        elif c < 0.86:
            run.stats()
        elif c < 0.9:
            run.oplog()
        elif c > 1 - restart:
            if rng.random() < 0.5:
                run.close()
                if rng.random() < 0.4:
                    run.save(w, n, 1)
                    run.load(w, n)
                    run.stats()
                    run.close()
            if rng.random() < 0.6:
                run.new()
            run.init()
    run.look()
    run.new()
    run.init()
    run.look()
    return run.done()


def replay(kind, tour, rng):
    """A behaviour of PersistImpl (Atomic) on the real manager."""
    run = PRun(kind, rng, {"checkpoint_interval": 2, "compression": rng.random() < 0.5},
               ["f", "g"])
    for op in tour:
        o = op["op"]
        if o == "open":
            run.init()
        elif o == "restart":
            if rng.random() < 0.5:
                run.close()
            run.new()
        else:
            w = "vectors" if op["what"] == "index" and rng.random() < 0.5 else op["what"]
            run.save(w, {"state": "f", "index": "f", "vectors": "g"}[w] if kind == "inc" else
                     {"state": "s", "index": "f", "vectors": "g"}[w], rng.randint(1, 5))
        if run.opened():
            c = rng.random()
            if c < 0.3:
                run.load("state", "s" if kind == "tensor" else "f")
            elif c < 0.5:
                run.load("index", "f")
            elif c < 0.6:
                run.load("vectors", "g")
            elif c < 0.8:
                run.stats()
            elif c < 0.9:
                run.oplog()
    if not run.opened():
        run.init()
    run.look()
    return run.done()


# ------------------------------------------------------------ crash points
def crash_family(kind, rng, every=1, only=None):
    """Traces for a crash/fault at every point of one save after a prefix."""
    from faults import count_points, run_crash, run_fault, run_limit
    from drv_storage import snapshot
    cfg = {"compression": rng.random() < 0.5} if kind == "tensor" else {
        "checkpoint_interval": rng.choice([1, 2, 100])}
    names = ["s.pkl", "v.npz", "i.pkl"]
    nm = {"state": "s.pkl", "vectors": "v.npz", "index": "i.pkl"}
    base = PRun(kind, rng, cfg, names)
    base.init()
    for _ in range(rng.randint(1, 4)):
        w = only or whats(kind, rng)
        base.save(w, nm[w], rng.randint(1, 5))
    base.new()
    base.init()
    prefix = list(base.ev)
    w = only or whats(kind, rng)
    last = (w, nm[w], rng.randint(1, 5))
    e_in = {"op": "save", "what": last[0], "name": last[1], "v": last[2], "r": "", "fault": True}
    work = core.fresh_dir("pc")

    def prep():
        d = os.path.join(work, "d")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base.path, d)
        r = PRun(kind, rng, cfg, names, path=d, vocab=base.vocab)
        r.pm.initialize()
        return r

    def act(r):
        return r.save(*last)

    out, seen = [], set()

    def conclude(r, outcome, mode=""):
        key = (outcome, mode, snapshot_values(r.path))
        if key in seen:
            return
        seen.add(key)
        r.ev = list(prefix)
        if outcome == "crash":
            r.ev.append({"op": "crash", "in": e_in})
        else:
            r.ev.append(dict(e_in, r=outcome, mode=mode))
        r.new()
        r.init()
        r.look()
        for _ in range(2):           # the manager must go on working
            x = rng.choice(["state", last[0]])
            r.save(x, nm[x], rng.randint(1, 5))
            r.look()
            r.new()
            r.init()
            r.look()
        out.append(r.ev)

    points = 0
    n = count_points(prep, act, kinds="call")
    for k in range(1, n + 1, every):
        r = prep()
        if run_crash(r, act, k):
            points += 1
            conclude(r, "crash")
    for k in [0, 1, 10, 40, 80, 120, 160, 200, 240, 280, 330, 400, 600, 1000, 5000]:
        r = prep()
        if run_limit(r, act, k, kill=True) == "crash":
            points += 1
            conclude(r, "crash")
    for k in range(1, count_points(prep, act, kinds="audit") + 1):
        r = prep()
        res = run_fault(r, act, k)
        points += 1
        conclude(r, res, "audit")
    for k in [0, 1, 10, 40, 80, 120, 160, 200, 240, 280, 330, 400, 600, 1000, 5000]:
        r = prep()
        res = run_limit(r, act, k, kill=False)
        points += 1
        conclude(r, res, "fsize")
    shutil.rmtree(work, ignore_errors=True)
    base.done()
    return out, points


def snapshot_values(path):
    """Content of the directory without what differs from run to run."""
    import re
    import hashlib
    h = []
    for d, ds, fs in os.walk(path):
        for f in sorted(fs):
            if f.startswith(".tmp-"):
                f2 = "tmp"
            else:
                f2 = f
            with open(os.path.join(d, f), "rb") as fh:
                b = re.sub(rb'"timestamp": "[^"]*"', b"", fh.read())
            h.append((f2, hashlib.md5(b).hexdigest()))
    return tuple(sorted(h))

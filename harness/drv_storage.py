"""Drives the real storage backends and records traces for TrStorage."""
import hashlib
import json
import os
import shutil

import valori_env  # noqa: F401
import core
from values import Vocab, akey, canon, spoil_array, spoil_meta


def make(kind, lim, path):
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    if kind == "memory":
        return MemoryStorage({})
    if kind == "disk":
        return DiskStorage({"data_dir": path})
    return HybridStorage({"memory_limit": lim, "memory": {}, "disk": {"data_dir": path}})


class Run:
    """One trace: a backend, its directory and what was observed."""

    def __init__(self, kind, lim, vocab, path=None, alias=False, ids=None):
        self.kind, self.lim, self.vocab = kind, lim, vocab
        self.path = path or core.fresh_dir("st")
        self.alias = alias
        self.ids = ids or {}
        self.ev = [{"op": "reset", "kind": kind, "lim": lim}]
        self.st = make(kind, lim, self.path)

    def name(self, i):
        return self.ids.get(i, i)

    # -- events
    def open(self):
        self._call("init", lambda: self.st.initialize())

    def _call(self, op, f):
        try:
            f()
            r = "ok"
        except Exception:
            r = "err"
        self.ev.append({"op": op, "r": r})

    def close(self):
        self._call("close", lambda: self.st.close())

    def new(self):
        self.st = make(self.kind, self.lim, self.path)
        self.ev.append({"op": "new"})

    def mutate(self, op, i, v=0, m=0, fault=False, toolong=False):
        e = {"op": "toolong" if toolong else op, "id": i, "v": v, "m": m, "fault": fault}
        vec = meta = None
        try:
            if op == "delete":
                r = self.st.delete_vector(self.name(i))
            else:
                vec, meta = self.vocab.vec(v), self.vocab.meta(m)
                f = self.st.store_vector if op == "store" else self.st.update_vector
                if meta is None and (v + m) % 2:
                    r = f(self.name(i), vec)
                else:
                    r = f(self.name(i), vec, meta)
            e["r"] = "true" if r is True else "false" if r is False else "odd"
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__
        self.ev.append(e)
        if self.alias and vec is not None:
            same = self.vocab.tok_v(vec) == v and self.vocab.tok_m(meta) == m
            self.ev.append({"op": "same", "r": "true" if same else "false"})
            spoil_array(vec)
            spoil_meta(meta)
        return e["r"]

    def get(self, i):
        e = {"op": "get", "id": i, "v": 0, "m": 0}
        self._get(self.st, i, e)

    def _get(self, st, i, e):
        try:
            r = st.retrieve_vector(self.name(i))
            if r is None:
                e["r"] = "none"
            else:
                vec, meta = r
                e["r"], e["v"], e["m"] = "rec", self.vocab.tok_v(vec), self.vocab.tok_m(meta)
                if e["v"] == -1:
                    e["raw"] = repr(akey(vec))[:200]
                if self.alias:
                    spoil_array(vec)
                    spoil_meta(meta)
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__
        self.ev.append(e)

    def layer(self, i):
        """Read the disk layer of a hybrid store with a fresh disk backend."""
        st = make("disk", 0, self.path)
        st.initialize()
        self._get(st, i, {"op": "layer", "id": i, "v": 0, "m": 0})

    def list(self, lim=-1):
        e = {"op": "list", "lim": lim, "ids": []}
        back = {self.name(i): i for i in self.known_ids}
        try:
            r = self.st.list_vectors() if lim == -1 else self.st.list_vectors(limit=lim)
            e["r"] = "ids"
            e["ids"] = [back.get(x, "?" + repr(x)) if isinstance(x, str) else "?" + repr(x)
                        for x in r]
            if self.alias and isinstance(r, list):
                r.append("spoiled")
        except Exception as x:
            e["r"] = "err"
        self.ev.append(e)

    known_ids = ()

    def stats(self):
        e = {"op": "stats", "n": -1, "mem": 0}
        try:
            s = self.st.get_stats()
            if s.get("status") == "not_initialized":
                e["r"] = "closed"
            else:
                e["r"] = "ok"
                if self.kind == "hybrid":
                    e["n"], e["mem"] = s["disk"]["vector_count"], s["memory"]["vector_count"]
                else:
                    e["n"] = s["vector_count"]
        except Exception:
            e["r"] = "err"
        self.ev.append(e)

    def look(self, rng=None, layer=False):
        """Observe everything."""
        for i in self.known_ids:
            self.get(i)
            if layer:
                self.layer(i)
        self.list()
        self.stats()

    def done(self):
        shutil.rmtree(self.path, ignore_errors=True)
        return self.ev


def model_cfg(ids, vals, metas, lim, atomic, kind):
    return """INIT Init
NEXT Next
CONSTANTS Ids = {%s} Vals = {%s} Metas = {%s} Limit = %d Atomic = %s Kind = "%s"
INVARIANTS Quiescent CacheBound CacheClean CacheUnique Served
""" % (",".join('"%s"' % i for i in ids), ",".join(map(str, vals)),
       ",".join(map(str, metas)), lim, atomic, kind)


def step_model(ck, kind, ids="abc", lim=2):
    ck.model("StorageImpl", model_cfg(ids, [1, 2], [0, 1], lim, "FALSE", kind), env={"EMIT": "0"})


def graph(ck, kind, lim, ids="abc", vals=(1,), metas=(0, 1)):
    return ck.edges("StorageImpl", model_cfg(ids, vals, metas, lim, "TRUE", kind), env={"EMIT": "1"})


def replay(kind, lim, tour, rng, alias=False, ids=None, watch=0.15, layer=False, vocab=None):
    """Replay one behaviour of the model on the real backend."""
    run = Run(kind, lim, vocab or Vocab(rng, 4, 4), alias=alias, ids=ids)
    run.known_ids = ("a", "b", "c")
    # the model's value tokens stand for one of several concrete ones
    for op in tour:
        o = op["op"]
        if o == "open":
            run.open()
        elif o == "restart":
            if rng.random() < 0.5:
                run.close()
                if rng.random() < 0.3:
                    run.close()
            if rng.random() < 0.5 or not run.ev[-1]["op"] == "close":
                run.new()
            if rng.random() < 0.3:      # refused while closed
                run.mutate(rng.choice(["store", "update"]), op["id"] or "a", 1, 0)
                run.get("a")
        elif o == "get":
            run.get(op["id"])
        else:
            v = rng.randint(1, 4) if o != "delete" else 0
            m = 0 if (op["m"] == 0) else rng.randint(1, 4)
            run.mutate(o, op["id"], v, m)
            run.get(op["id"]) if rng.random() < 0.25 else None
        if rng.random() < watch:
            c = rng.random()
            if c < 0.4:
                run.list(rng.choice([-1, -1, 0, 1, 2, 3, 5]))
            elif c < 0.7:
                run.stats()
            elif layer and c < 0.9:
                run.layer(rng.choice("abc"))
            else:
                run.get(rng.choice(["a", "b", "c", "nosuch"]))
    if run.ev[-1]["op"] in ("new", "close"):
        run.open()
    run.look(layer=layer)
    return run.done()


def random_history(kind, lim, rng, steps, names, alias=False, restart=0.03, layer=False,
                   nvec=8, nmeta=6):
    """A long random history over the given ids (token -> real id)."""
    run = Run(kind, lim, Vocab(rng, nvec, nmeta), alias=alias, ids=names)
    run.known_ids = tuple(names)
    run.open()
    toks = list(names)
    for _ in range(steps):
        c, i = rng.random(), rng.choice(toks)
        v, m = rng.randint(1, nvec), rng.choice([0, 0] + list(range(1, nmeta + 1)))
        if c < 0.35:
            run.mutate("store", i, v, m)
        elif c < 0.5:
            run.mutate("update", i, v, m)
        elif c < 0.62:
            run.mutate("delete", i)
        elif c < 0.85:
            run.get(i)
        elif c < 0.9:
            run.list(rng.choice([-1, -1, 0, 1, 2, len(toks), len(toks) + 5]))
        elif c < 0.94:
            run.stats()
        elif c < 0.95:
            run.mutate("store", "", v, m)
        elif layer and c < 0.97:
            run.layer(i)
        elif c > 1 - restart:
            k = rng.random()
            if k < 0.4:
                run.close()
            if k < 0.2:
                run.get(i)
                run.list()
                run.stats()
                run.mutate("delete", i)
            if k > 0.3:
                run.new()
            run.open()
    run.look(layer=layer)
    return run.done()


def plain_ids(rng, n):
    out = {}
    for j in range(n):
        t = "abcdefghijklmnopqrstuvwxyz"[j % 26] + (str(j // 26) if j >= 26 else "")
        out[t] = rng.choice(["vec_%d", "id-%d", "%d", "doc.%d", "Vector %d", "v/%d"]) % j
    return out


# ---------------------------------------------------------------- P03
CONFUSABLE = [
    ["a/b", "a_b", "a b", "a\\b", "a%2Fb", "a%2fb", "a-b", "a.b", "ab", "A/B", "a//b", "a/b/"],
    [".", "..", "...", "%", "%%", "%25", "%2E", "._", "-", "_", " ", "  "],
    ["x", "x.npy", "x.pkl", "x.tmp", "x.npy.tmp", "x.npy.npy", ".x", "x.", "X", "x ", " x", "x%"],
    ["\u00e9", "e\u0301", "e", "É", "ß", "ss", "ﬁ", "fi", "\u2028", "\u200b", "\x00", "\x01"],
    ["a\n", "a\r", "a\t", "a", "a\x00", "a\x00b", "a:b", "a|b", "a*b", "a?b", "a\"b", "a<b"],
    ["*", "?", "[a]", "a*", "a?", "[!a]", "**", "{a,b}", "~", "$HOME", "`a`", "!"],
    ["\U0001f600", "\U0001f601", "\ud800", "\udfff", "漢字", "漢_", "__", "%E6%BC%A2%E5%AD%97", "²", "2", "½", "１"],
    [".tmp", "a.tmp", "a.tmp1", ".tmpa", "a.npy.tmp", "a", ".a", "..a", ".npy", ".pkl", "tmp", "a.bak", "a~"],
    ["lock", ".lock", "index", "index.json", "metadata", "vectors", "metadata.json", "__init__", "CON", "nul", ".DS_Store", "lost+found"],
    ["1", "01", "1.0", "１", "①", "+1", "-1", "1e0", "0x1", "1_", "_1", "1 "],
    ["key=val", "key&val", "key+val", "key val", "key%20val", "key@val", "key#val", "key;val", "key,val", "key'val", "(key)", "key^val"],
]


def traversal_ids(root):
    return ["../x", "../../x", "../metadata/x", "../vectors/x", "./x", "x/../y", "x", "..%2Fx",
            os.path.join(root, "canary"), "../../canary", "../canary", "canary"]


def tree(root, skip):
    """Content of every file under root, except below skip."""
    r = {}
    for d, ds, fs in os.walk(root):
        if os.path.abspath(d) == os.path.abspath(skip):
            ds[:] = []
            continue
        ds[:] = [x for x in ds if os.path.join(d, x) != skip]
        r[d] = "dir"
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                r[p] = hashlib.md5(fh.read()).hexdigest()
    return r


def id_history(kind, rng, group, steps, lim=2, restart=0.05):
    """Histories over ids that a lossy file-name mapping would confuse."""
    import numpy as np
    root = core.fresh_dir("ids")
    data = os.path.join(root, "p", "q", "data")
    os.makedirs(os.path.dirname(data))
    if group == "traversal":
        pool = traversal_ids(root)
    else:
        pool = list(group)
    rng.shuffle(pool)
    names = {"i%d" % j: s for j, s in enumerate(dict.fromkeys(pool))}
    run = Run(kind, lim, Vocab(rng, 6, 4, plain=True), path=data, ids=names)
    run.known_ids = tuple(names)
    run.open()
    # canaries: files an escaping id could read, overwrite or delete
    for d in (root, os.path.join(root, "p"), os.path.join(root, "p", "q")):
        for n in ("canary.npy", "x.npy", "canary", "x"):
            p = os.path.join(d, n)
            if n.endswith(".npy"):
                np.save(p, np.arange(3, dtype="f4"))
            else:
                open(p, "wb").write(b"keep")
    before = tree(root, data)
    for _ in range(steps):
        c, i = rng.random(), rng.choice(list(names))
        if rng.random() < restart:
            if rng.random() < 0.5:
                run.close()
            if rng.random() < 0.7 or run.ev[-1]["op"] != "close":
                run.new()
            run.open()
            run.list(rng.choice([-1, 0, 1, 2, len(names)]))
            run.stats()
        elif c < 0.5:
            run.mutate("store", i, rng.randint(1, 6), rng.choice([0, 1, 2, 3, 4]))
        elif c < 0.6:
            run.mutate("update", i, rng.randint(1, 6), rng.choice([0, 1, 2]))
        elif c < 0.75:
            run.mutate("delete", i)
        elif c < 0.9:
            run.get(rng.choice(list(names)))
        elif c < 0.97:
            run.list(rng.choice([-1, 0, 1, 2, len(names), len(names) + 3]))
        else:
            run.stats()
    run.look()
    run.new()
    run.open()
    run.look()
    for lim_ in (0, 1, len(names) // 2, len(names)):
        run.list(lim_)
    after = tree(root, data)
    n = len(set(before.items()) ^ set(after.items()))
    run.ev.append({"op": "outside", "n": n})
    shutil.rmtree(root, ignore_errors=True)
    return run.ev


# ---------------------------------------------------------------- P06
def snapshot(path):
    h = hashlib.md5()
    for d, ds, fs in os.walk(path):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, path).encode("utf-8", "surrogatepass"))
            with open(p, "rb") as fh:
                h.update(b"\0" + fh.read() + b"\1")
    return h.hexdigest()


def crash_scenario(rng, kind, lim=2):
    """Prior operations and one operation to interrupt."""
    ids = ["a", "b", "c"]
    prior = []
    for i in ids[:2]:
        if rng.random() < 0.75:
            prior.append(("store", i, rng.randint(1, 6), rng.choice([0, 1, 2, 3])))
    if rng.random() < 0.3:
        prior.append(("delete", rng.choice(ids[:2]), 0, 0))
    op = rng.choice(["store", "store", "update", "delete"])
    target = rng.choice(ids)
    if op == "delete":
        last = ("delete", target, 0, 0)
    else:
        last = (op, target, rng.randint(1, 6), rng.choice([0, 1, 2, 3]))
    return prior, last


def crash_family(ck, kind, scenario, rng, lim=2, every=1, faults=True, bytes_every=7):
    """Traces for a crash/fault at every point of one operation."""
    from faults import count_points, run_crash, run_fault, run_limit
    prior, last = scenario
    vocab = Vocab(rng, 6, 3)
    names = {"a": "vec a", "b": "b/1", "c": "c"}
    base = Run(kind, lim, vocab, ids=names)
    base.known_ids = ("a", "b", "c")
    base.open()
    for op, i, v, m in prior:
        base.mutate(op, i, v, m)
    base.new()
    base.open()
    prefix = list(base.ev)
    e_in = {"op": last[0], "id": last[1], "v": last[2], "m": last[3], "fault": False}
    work = core.fresh_dir("cr")

    def prep():
        d = os.path.join(work, "d")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base.path, d)
        r = Run(kind, lim, vocab, path=d, ids=names)
        r.known_ids = base.known_ids
        r.ev = []
        r.st.initialize()
        return r

    def act(r):
        return r.mutate(*last)

    out, seen = [], set()

    def conclude(r, outcome, extra):
        """outcome: 'crash' or the result string of the operation."""
        key = (outcome, extra.get("mode"), snapshot(r.path))
        if key in seen:
            return
        seen.add(key)
        r.ev = list(prefix)
        if outcome == "crash":
            r.ev.append(dict({"op": "crash", "in": e_in}, **extra))
        else:
            r.ev.append(dict(e_in, fault=True, r=outcome, **extra))
            if kind == "disk":      # same directory, before reopening
                for i in r.known_ids:
                    r.get(i)
                r.list()
        r.new()
        r.open()
        r.look()
        # the store must go on working
        r.mutate("store", last[1], 1, 1)
        r.look()
        r.new()
        r.open()
        r.look()
        out.append(r.ev)

    n = count_points(prep, act, kinds="call")
    points = 0
    for k in range(1, n + 1, every):
        r = prep()
        if run_crash(r, act, k):
            points += 1
            conclude(r, "crash", {})
    size = 0
    for k in list(range(0, 40, bytes_every)) + [100, 130, 160, 200, 300]:
        r = prep()
        if run_limit(r, act, k, kill=True) == "crash":
            points += 1
            conclude(r, "crash", {})
    if faults:
        m = count_points(prep, act, kinds="audit")
        for k in range(1, m + 1):
            r = prep()
            res = run_fault(r, act, k)
            points += 1
            conclude(r, res, {"mode": "audit"})
        for k in list(range(0, 40, bytes_every)) + [100, 130, 160, 200, 300]:
            r = prep()
            res = run_limit(r, act, k, kill=False)
            points += 1
            conclude(r, res, {"mode": "fsize"})
    shutil.rmtree(work, ignore_errors=True)
    base.done()
    return out, points

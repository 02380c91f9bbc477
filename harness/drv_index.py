"""Drives the real indices (directly or through the client) and records traces
for TrIndex."""
import copy
import math
import os
import random
import shutil
import tempfile

import numpy as np

import valori_env  # noqa: F401
import core
from values import canon, meta_pool, spoil_array, spoil_meta

FAMILY = ("flat", "hnsw", "ivf")


class Injected(Exception):
    """What the faulty storage raises."""


class FaultyStorage:
    """A storage backend whose n-th call fails before it has any effect."""

    CALLS = ("store_vector", "retrieve_vector", "update_vector", "delete_vector", "list_vectors")

    def __init__(self, inner):
        self._inner = inner
        self._arm = None
        self.fired = False

    def arm(self, n):
        self._arm, self.fired = n, False

    def disarm(self):
        self._arm = None

    def __getattr__(self, name):
        a = getattr(self._inner, name)
        if name in self.CALLS:
            def f(*args, **kw):
                if self._arm is not None:
                    self._arm -= 1
                    if self._arm < 0:
                        self._arm, self.fired = None, True
                        raise Injected("injected storage failure in " + name)
                return a(*args, **kw)
            return f
        return a


def isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def vector_pool(rng, n, dim, metric):
    """n distinct integer vectors; for angular metrics all have integer norms."""
    out, seen = [], set()
    ang = metric in ("cosine", "angular")
    lim = {1: 12, 2: 12, 3: 9, 4: 6}.get(dim, 2)
    special = []
    if rng.random() < 0.5:
        special.append((0,) * dim)
    tries = 0
    while len(out) < n:
        tries += 1
        if special:
            v = special.pop()
        elif metric == "hamming":
            v = tuple(rng.randint(0, 1) for _ in range(dim))
        elif out and rng.random() < 0.15:
            b = rng.choice(out)
            f = rng.choice([-1, 2])
            v = tuple(f * x for x in b)     # parallel or opposite
        elif dim == 2 and ang and rng.random() < 0.8:
            a, b = rng.choice([(3, 4), (5, 12), (0, 5), (6, 8), (1, 0)])
            if rng.random() < 0.5:
                a, b = b, a
            v = (a * rng.choice([-1, 1]), b * rng.choice([-1, 1]))
        elif dim == 3 and ang and rng.random() < 0.8:
            v = list(rng.choice([(1, 2, 2), (2, 3, 6), (0, 3, 4), (1, 4, 8), (4, 4, 7), (2, 6, 9)]))
            rng.shuffle(v)
            v = tuple(x * rng.choice([-1, 1]) for x in v)
        else:
            v = tuple(rng.randint(-lim, lim) for _ in range(dim))
        n2 = sum(x * x for x in v)
        if n2 > 441 or v in seen:
            if tries > 5000:
                break
            continue
        if ang and isqrt_exact(n2) is None:
            continue
        seen.add(v)
        out.append(v)
    rng.shuffle(out)
    return out


def clamp(x, lo, hi):
    if x != x:
        return lo
    return int(round(min(max(x, lo), hi)))


def scale_score(kind, metric, d):
    try:
        d = float(d)
    except Exception:
        return -1000000
    if kind in FAMILY:
        if metric == "cosine":
            return clamp(d * 100000, -400000, 400000)
        return clamp(d * 1000, -46000, 46000)
    if metric == "cosine":
        return clamp(d * 100000, -400000, 400000)
    if metric == "angular":
        return clamp(d * 500, -1500, 1500)
    return clamp(d * 1000, -100000, 10000)


def make_storage(kind, path, lim=3):
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    if kind == "memory":
        return MemoryStorage({})
    if kind == "disk":
        return DiskStorage({"data_dir": path})
    return HybridStorage({"memory_limit": lim, "memory": {}, "disk": {"data_dir": path}})


def make_index(kind, cfg):
    from valori.indices import (AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex,
                                LSHIndex)
    return {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex,
            "annoy": AnnoyIndex}[kind](dict(cfg))


class ScriptedRandom:
    """Replaces random.random/random.sample while the index runs, to reach
    graphs that ordinary randomness hardly ever builds."""

    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode

    def random(self):
        m = self.mode
        if m == "low":
            return 0.9
        if m == "high":
            return 0.1 if self.rng.random() < 0.95 else 0.9
        if m == "alternate":
            return self.rng.choice([0.0, 0.4999, 0.5, 0.99])
        return self.rng.random()

    def sample(self, pop, k, **kw):
        pop = list(pop)
        m = self.mode
        if m == "low":
            return pop[:k]
        if m == "high":
            return pop[-k:] if k else []
        return self.rng.sample(pop, k)

    def __enter__(self):
        self.old = random.random, random.sample
        random.random, random.sample = self.random, self.sample

    def __exit__(self, *a):
        random.random, random.sample = self.old


class IndexRun:
    """One trace of an index (or a client)."""

    def __init__(self, kind, metric, cfg, rng, storage="memory", client=False, alias=False,
                 dim=None, npool=10, dtypes=("f4",), faulty=False, hnsw_mode=None, nmeta=5):
        self.kind, self.metric, self.cfg, self.rng = kind, metric, dict(cfg, metric=metric), rng
        self.skind, self.client, self.alias = storage, client, alias
        self.dim = dim or rng.choice([1, 2, 2, 3, 3, 4, 8])
        if metric == "hamming":
            self.dim = rng.choice([4, 8, 16])
        self.pool = vector_pool(rng, npool, self.dim, metric)
        self.dtypes = dtypes
        # the same geometry at other magnitudes and, for distances, far from the origin
        self.scale, self.shift = 1, 0
        if all(d in ("f4", "f8") for d in dtypes):
            if metric in ("cosine", "angular"):
                self.scale = rng.choice([1, 1, 0.25, 8, 2.0 ** -30, 2.0 ** -20, 2.0 ** 24])
                if set(dtypes) == {"f8"} and kind != "annoy" and rng.random() < 0.4:
                    # beyond the range of single precision
                    self.scale = rng.choice([2.0 ** 140, 2.0 ** 300, 2.0 ** -160, 2.0 ** -300])
            elif kind in FAMILY and metric == "euclidean":
                self.scale = rng.choice([1, 1, 2.0 ** -24, 2.0 ** 20])
                if set(dtypes) == {"f8"} and rng.random() < 0.6:
                    self.scale, self.shift = 1, rng.choice([2 ** 16, -2 ** 20, 2 ** 30])
        elif set(dtypes) == {"f8", "i8"} and metric in ("cosine", "angular"):
            self.scale = 0.25      # some of the vectors are whole numbers
            self.pool = [tuple(4 * x for x in v) if i % 2 and sum(x * x for x in v) <= 25 else v for i, v in enumerate(self.pool)]
            self.pool = list(dict.fromkeys(self.pool))
        if any(d[0] == "u" or d == "b1" for d in dtypes):
            self.pool = [tuple(abs(x) for x in v) for v in self.pool]
            self.pool = list(dict.fromkeys(self.pool))
        self.tok = {v: i + 1 for i, v in enumerate(self.pool)}
        # some vectors are only ever asked for
        n = len(self.pool)
        self.stored = range(1, n + 1) if rng.random() < 0.5 else range(1, max(2, n - n // 3 + 1))
        self.metas = [{}] + [m for m in meta_pool(rng, nmeta) if m != {}]
        self.mtok = {canon(m): i + 1 for i, m in enumerate(self.metas)}
        self.path = core.fresh_dir("ix")
        self.mode = ScriptedRandom(rng, hnsw_mode)
        nclus = self.cfg.get("n_clusters", 1) if kind == "ivf" else 1
        self.ev = [{"op": "reset", "kind": kind, "metric": metric, "vecs": [list(v) for v in self.pool],
                    "norm": [isqrt_exact(sum(x * x for x in v)) or 0 for v in self.pool],
                    "nclus": nclus, "nprobes": self.cfg.get("n_probes", 10),
                    "ef": self.cfg.get("ef_search", 50), "deft": self.cfg.get("search_k", -1) <= 0,
                    "ntab": self.cfg.get("num_hash_tables", 10),
                    "persist": storage != "memory", "client": client}]
        self.ids = {}           # real id -> token
        self.real = {}          # token -> real id
        self.live = []          # tokens presumably alive
        self.dead = []
        self.saved = set()      # files
        self.has_dim = False
        self.storage = make_storage(storage, self.path)
        self.raw = self.storage
        if faulty:
            self.storage = FaultyStorage(self.storage)
        self.faulty = faulty
        if not client:
            self.raw.initialize()
        self.fresh()

    def fresh(self):
        if self.kind == "annoy":
            # temporary files of this trace go to a folder of its own
            self.tmp = os.path.join(self.path, "tmp")
            os.makedirs(self.tmp, exist_ok=True)
            tempfile.tempdir = self.tmp
            self.before = set(os.listdir(self.tmp))
        self.index = make_index(self.kind, self.cfg)
        if self.client:
            from valori import VectorDBClient
            self.db = VectorDBClient(self.storage, self.index)
        else:
            self.db = self.index

    # ---------------------------------------------------------- values
    def arr(self, toks, dtype=None):
        d = dtype or self.rng.choice(self.dtypes)
        a = np.array([self.pool[t - 1] for t in toks], dtype="f8").reshape(len(toks), self.dim)
        a = a * self.scale + self.shift
        if np.dtype(d).kind in "iu" and not (a == np.floor(a)).all():
            d = "f8"        # fractions do not go into integers
        a = a.astype(d)
        if self.rng.random() < 0.1:
            a = np.asfortranarray(a)
        return a

    def vtok(self, a):
        try:
            xs = [(float(x) - self.shift) / self.scale for x in np.asarray(a).tolist()]
            return self.tok.get(tuple(int(x) if x == int(x) else None for x in xs), -1)
        except Exception:
            return -1

    def unscaled(self, d):
        return float(d) / self.scale if self.metric == "euclidean" and self.scale != 1 else d

    def meta(self, t):
        return None if t == 0 else copy.deepcopy(self.metas[t - 1])

    def meta_tok(self, m):
        return 0 if m is None else self.mtok.get(canon(m), -1)

    def id_tok(self, real, new=False):
        s = real if isinstance(real, str) else str(real)
        if s not in self.ids:
            t = len(self.ids) + 1
            self.ids[s] = t
            self.real[t] = s
        return self.ids[s]

    def unknown(self):
        """A token for an id that is not in the index."""
        c = self.rng.random()
        if self.dead and c < 0.5:
            return self.rng.choice(self.dead)
        s = self.rng.choice(["no-such-id", "", "-1", "01", "999999", " 0", "0.0", "\u00b2", "+0", "None"])
        return self.id_tok(s)

    # ---------------------------------------------------------- events
    def arm(self, n):
        if n is not None and self.faulty:
            self.storage.arm(n)

    def fired(self):
        if not self.faulty:
            return False
        self.storage.disarm()
        f, self.storage.fired = self.storage.fired, False
        return f

    def init(self, fault=None):
        self.arm(fault)
        try:
            with self.mode:
                if self.client:
                    self.db.initialize()
                else:
                    self.index.initialize(self.storage)
            r = "ok"
        except Exception as x:
            r = "err"
        self.ev.append({"op": "init", "r": r, "fault": self.fired()})
        if self.client and self.skind == "memory" and self.kind in FAMILY:
            self.dead += self.live
            self.live = []
        return r

    def close(self):
        try:
            self.db.close()
            r = "ok"
        except Exception:
            r = "err"
        self.ev.append({"op": "close", "r": r, "fault": False})
        if self.kind == "annoy":
            left = len(set(os.listdir(self.tmp)) - self.before)
            self.ev.append({"op": "left", "n": left, "r": "ok", "fault": False})
        if not (self.kind in FAMILY and (self.skind != "memory" or not self.client)):
            self.dead += self.live
            self.live = []

    def newindex(self):
        if self.client:
            try:
                self.raw.close()
            except Exception:
                pass
            self.storage = self.raw = make_storage(self.skind, self.path)
            if self.faulty:
                self.storage = FaultyStorage(self.raw)
        self.fresh()
        self.ev.append({"op": "newindex", "r": "ok", "fault": False})
        if not (self.kind in FAMILY and (self.skind != "memory" or not self.client)):
            self.dead += self.live
            self.live = []
            self.has_dim = False

    def by_numbers(self):
        """LSH and Annoy indices also have add() and remove() with numbers for ids."""
        return not self.client and self.kind in ("lsh", "annoy") and self.rng.random() < 0.2

    def insert(self, vs, ms=None, fault=None, dtype=None):
        e = {"op": "insert", "vs": list(vs), "ms": list(ms or []), "given": ms is not None,
             "ids": []}
        a = self.arr(vs, dtype)
        metas = None if ms is None else [self.meta(m) for m in ms]
        keep = a.copy()
        self.arm(fault)
        try:
            with self.mode:
                if self.by_numbers() and metas is not None:
                    r = [str(x) if type(x) is int else x for x in self.db.add(a, metas)]
                else:
                    r = self.db.insert(a, metas) if metas is not None else self.db.insert(a)
            e["r"] = "ok"
            if isinstance(r, list) and all(isinstance(x, str) for x in r):
                e["ids"] = [self.id_tok(x) for x in r]
            else:
                e["r"] = "badids"
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__ + ": " + str(x)[:80]
        e["fault"] = self.fired()
        self.ev.append(e)
        if e["r"] == "ok":
            self.live += e["ids"]
            self.dead = [d for d in self.dead if d not in e["ids"]]
            self.has_dim = self.has_dim or bool(vs)
        if self.alias:
            same = np.array_equal(a, keep) and (
                metas is None or [self.meta_tok(m) for m in metas] == list(ms))
            self.ev.append({"op": "same", "r": "true" if same else "false"})
            spoil_array(a)
            for m in metas or []:
                spoil_meta(m)
            if isinstance(metas, list):
                metas.append("spoiled")
        return e["r"]

    def update(self, t, v, m=0, fault=None, dtype=None):
        e = {"op": "update", "id": t, "v": v, "m": m}
        a = self.arr([v], dtype)[0]
        a = np.array(a)
        meta = self.meta(m)
        self.arm(fault)
        try:
            with self.mode:
                r = self.db.update(self.real[t], a, meta) if meta is not None or self.rng.random() < .5 \
                    else self.db.update(self.real[t], a)
            e["r"] = "true" if r is True else "false" if r is False else "odd"
        except Exception as x:
            e["r"] = "err"
        e["fault"] = self.fired()
        self.ev.append(e)
        if self.alias:
            same = self.vtok(a) == v and self.meta_tok(meta) == m
            self.ev.append({"op": "same", "r": "true" if same else "false"})
            spoil_array(a)
            spoil_meta(meta)

    def delete(self, toks, fault=None):
        e = {"op": "delete", "ids": list(toks)}
        reals = [self.real[t] for t in toks]
        self.arm(fault)
        try:
            with self.mode:
                if self.by_numbers() and all(x.isascii() and x.isdigit() and str(int(x)) == x for x in reals):
                    far = [int(x) for x in reals] + self.rng.choice([[], [], [-1], [10 ** 6]])
                    self.rng.shuffle(far)
                    r = self.db.remove(far)
                    r = "none" if r is None else "odd"
                else:
                    r = self.db.delete(reals)
            e["r"] = r if r == "none" else "true" if r is True else "false" if r is False else "odd"
        except Exception as x:
            e["r"] = "err"
        e["fault"] = self.fired()
        self.ev.append(e)
        for t in toks:
            if t in self.live:
                self.live.remove(t)
                self.dead.append(t)

    def search(self, q, k, thr=None, fault=None, dtype=None):
        if thr is None or self.client or self.kind != "lsh":
            thr, pass_thr = self.cfg.get("threshold", 0.5), False
        else:
            pass_thr = True
        e = {"op": "search", "q": q, "k": k, "thr": int(round(thr * 100000)), "res": []}
        a = np.array(self.arr([q], dtype)[0])
        self.arm(fault)
        res = None
        try:
            with self.mode:
                res = self.db.search(a, k, threshold=thr) if pass_thr else \
                    self.db.search(a, k) if self.rng.random() < .5 else self.db.search(a, k=k)
            e["r"] = "res"
            for x in res:
                e["res"].append({"id": self.id_tok(x["id"]),
                                 "sc": scale_score(self.kind, self.metric, self.unscaled(x["distance"])),
                                 "m": self.meta_tok(x["metadata"])})
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__ + ": " + str(x)[:80]
        e["fault"] = self.fired()
        self.ev.append(e)
        if self.alias:
            self.ev.append({"op": "same", "r": "true" if self.vtok(a) == q else "false"})
            spoil_array(a)
            for x in res or []:
                spoil_meta(x.get("metadata"))
                x["id"] = "spoiled"
        return e

    def bad(self, what=None):
        """Input that has to be rejected."""
        rng = self.rng
        what = what or rng.choice(["insert", "insert", "update", "search"])
        dim_known = bool(self.live) or (self.has_dim and self.kind in ("lsh", "annoy"))
        modes = ["nan", "inf", "-inf", "rank"] + (["dim", "dim"] if dim_known else [])
        if what == "update":
            modes.remove("rank")
            modes += ["rank2"]
        mode = rng.choice(modes)
        e = {"op": "bad", "what": what, "mode": mode}
        d = self.dim
        fd = rng.choice(["f4", "f8"])
        if mode == "dim":
            d = rng.choice([x for x in (1, d - 1, d + 1, 2 * d) if x >= 1 and x != d])
        n = rng.randint(1, 5) if what == "insert" else 1
        a = np.ones((n, d), dtype=fd)
        for i in range(n):
            a[i, : min(d, self.dim)] = np.array(self.pool[rng.randrange(len(self.pool))])[: min(d, self.dim)]
        a = (a * self.scale + self.shift).astype(fd)
        if mode in ("nan", "inf", "-inf"):
            a[rng.randrange(n), rng.randrange(d)] = float(mode)
        if what == "insert":
            x = a
            if mode == "rank":
                x = a[0] if rng.random() < 0.5 else a[None, :, :]
            args = (x,)
            ms = rng.choice([None, [self.meta(rng.randint(0, len(self.metas))) for _ in range(len(x))]])
            f = (lambda: self.db.insert(x)) if ms is None else (lambda: self.db.insert(x, ms))
        elif what == "update":
            x = a[0] if mode != "rank2" else a
            t = rng.choice(self.live) if self.live and rng.random() < 0.9 else self.unknown()
            m = self.meta(rng.randint(0, len(self.metas)))
            f = lambda: self.db.update(self.real[t], x, m)
        else:
            x = a[0] if mode != "rank" else rng.choice([a, a[None]])
            f = lambda: self.db.search(x, rng.randint(1, 5))
        try:
            with self.mode:
                r = f()
            e["r"] = "false" if r is False else "empty" if r == [] else "accepted"
        except Exception as x:
            e["r"] = "err"
        e["fault"] = self.fired()
        self.ev.append(e)

    def foreign(self):
        """A new index with a past: it holds vectors of another dimension."""
        self.newindex()
        if self.init() != "ok":
            return
        d = self.rng.choice([x for x in (1, 2, self.dim + 1, 2 * self.dim) if x != self.dim])
        a = np.ones((self.rng.randint(1, 4), d), dtype="f4")
        self.index.insert(a, self.rng.choice([None, [{"foreign": 1}] * len(a)]))
        if self.rng.random() < 0.7:
            self.index.build()

    def simple(self, op, **kw):
        if op == "load" and kw["file"] in self.saved and not self.client and self.rng.random() < 0.25:
            self.foreign()
        e = dict(op=op, fault=False, **kw)
        try:
            if op == "build":
                self.index.build()
            elif op == "clear":
                self.index.clear()
            elif op == "save":
                self.index.save(os.path.join(self.path, kw["file"]))
            elif op == "load":
                self.index.load(os.path.join(self.path, kw["file"]))
            e["r"] = "ok"
            if op == "save":
                self.saved.add(kw["file"])
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__ + ": " + str(x)[:80]
        self.ev.append(e)
        if op == "clear":
            self.dead += self.live
            self.live = []
        return e["r"]

    def stats(self):
        e = {"op": "stats", "fault": False, "n": -1, "clusters": -1, "entries": 0, "maxb": 0,
             "levels": 0, "maxlevel": 0, "built": False, "peek": False, "members": []}
        try:
            if self.client and self.rng.random() < 0.5:
                s = self.db.get_stats()["index"]
            else:
                s = self.index.get_stats()
            if s.get("status") == "not_initialized":
                e["r"] = "closed"
            elif self.kind in ("lsh", "annoy") and not s.get("initialized"):
                e["r"] = "closed"
            else:
                e["r"] = "ok"
                if self.kind in FAMILY:
                    e["n"] = int(s["vector_count"])
                else:
                    e["n"] = int(s["num_vectors"])
                if self.kind == "ivf" and s["trained"]:
                    e["clusters"] = sum(s["cluster_stats"].values())
                    cl = getattr(self.index, "clusters", None)
                    if isinstance(cl, dict) and all(isinstance(v, list) for v in cl.values()):
                        e["peek"] = True
                        e["members"] = [self.id_tok(i) for v in cl.values() for i in v]
                if self.kind == "hnsw":
                    e["levels"], e["maxlevel"] = int(s["levels"]), int(s["max_level"])
                if self.kind == "lsh":
                    e["entries"] = int(round(float(s["avg_bucket_size"]) * sum(s["hash_table_sizes"])))
                    e["maxb"] = int(s["max_bucket_size"])
                if self.kind == "annoy":
                    e["built"] = bool(s["built"])
        except Exception as x:
            e["r"] = "err"
            e["x"] = type(x).__name__ + ": " + str(x)[:80]
        self.ev.append(e)

    def look_storage(self):
        if self.kind not in FAMILY:
            return
        e = {"op": "storage", "fault": False, "recs": []}
        try:
            for i in self.raw.list_vectors():
                v, m = self.raw.retrieve_vector(i)
                e["recs"].append({"id": self.id_tok(i), "v": self.vtok(v), "m": self.meta_tok(m)})
            e["r"] = "ok"
        except Exception as x:
            e["r"] = "err"
        self.ev.append(e)

    def opened(self):
        for e in reversed(self.ev):
            if e["op"] in ("init", "close", "newindex", "reset"):
                return e["op"] == "init" and e["r"] == "ok"

    def look(self, nq=2, build=True):
        """Observe everything the index serves."""
        if not self.opened():
            return
        if self.kind == "annoy" and build:
            self.simple("build")
        n = len(self.live)
        for _ in range(nq):
            self.search(self.rng.randint(1, len(self.pool)), n + self.rng.randint(0, 3), thr=-1)
        self.search(self.rng.randint(1, len(self.pool)), self.rng.randint(0, max(1, n)), thr=-1)
        self.stats()
        self.look_storage()

    def done(self):
        try:
            self.db.close()
        except Exception:
            pass
        tempfile.tempdir = None
        shutil.rmtree(self.path, ignore_errors=True)
        return self.ev


# ------------------------------------------------------------ parameters
def params(kind, rng):
    if kind == "flat":
        return rng.choice(["cosine", "euclidean"]), {}
    if kind == "hnsw":
        return rng.choice(["cosine", "euclidean"]), {
            "m": rng.choice([1, 2, 4, 16]), "ef_construction": rng.choice([1, 20, 200]),
            "ef_search": rng.choice([1, 2, 5, 50, 50])}
    if kind == "ivf":
        n = rng.choice([1, 2, 3, 4, 6])
        return rng.choice(["cosine", "euclidean"]), {
            "n_clusters": n, "n_probes": rng.choice([1, 1, 2, n, n, n + 3])}
    if kind == "lsh":
        np_ = rng.choice([8, 16, 64])
        return rng.choice(["cosine", "cosine", "euclidean", "manhattan"]), {
            "num_hash_tables": rng.choice([1, 2, 5, 10]), "hash_size": rng.choice([1, 2, 8]),
            "num_projections": np_, "threshold": rng.choice([-1.0, 0.0, 0.5, 0.9, 0.25]),
            "random_seed": rng.randint(0, 1000)}
    return rng.choice(["angular", "angular", "euclidean", "manhattan", "dot", "hamming"]), {
        "num_trees": rng.choice([1, 2, 5, 10]), "build_on_disk": rng.random() < 0.3}


def dtypes_for(kind, rng):
    r = rng.random()
    if r < 0.5:
        return ("f4",)
    if r < 0.7:
        return ("f8",)
    if r < 0.85:
        return ("f4", "f8")
    return rng.choice([("i4",), ("i8",), ("u1",), ("i1",), ("f2",), ("f4", "i8"), ("f8", "i8"), ("f8", "i8")])


def new_run(kind, rng, **kw):
    metric, cfg = params(kind, rng)
    if "metric" in kw:
        metric = kw.pop("metric")
    cfg.update(kw.pop("cfg", {}))
    kw.setdefault("dtypes", dtypes_for(kind, rng))
    kw.setdefault("storage", rng.choice(["memory", "memory", "memory", "disk", "hybrid"]))
    kw.setdefault("npool", rng.choice([4, 6, 10]))
    if kind == "hnsw":
        kw.setdefault("hnsw_mode", rng.choice([None, None, "low", "high", "alternate"]))
    return IndexRun(kind, metric, cfg, rng, **kw)


def random_history(kind, rng, steps, weights, maxn=30, fault_rate=0.0, **kw):
    """A random history.  weights: relative frequency of the kinds of steps."""
    run = new_run(kind, rng, faulty=fault_rate > 0, **kw)
    run.init()
    ops = [o for o in weights if weights[o] > 0]
    P, M = len(run.pool), len(run.metas)
    files = []
    for _ in range(steps):
        op = rng.choices(ops, [weights[o] for o in ops])[0]
        if not run.opened() and op not in ("close", "init", "newindex") and rng.random() < 0.7:
            op = "init"
        fault = rng.choice([0, 0, 1, 1, 2, 3, 5]) if rng.random() < fault_rate else None
        if op == "insert":
            n = rng.choice([0, 1, 1, 1, 2, 3, 5]) if len(run.live) < maxn else 0
            ms = None
            if rng.random() < 0.7:
                ms = [rng.randint(0, M) for _ in range(n)]
                if kind in FAMILY and rng.random() < 0.15 and ms:
                    ms = ms[:-1] if rng.random() < 0.5 else ms + [1]
                elif kind not in FAMILY and rng.random() < 0.05:
                    ms = ms + [1]
            run.insert([rng.choice(run.stored) for _ in range(n)], ms, fault)
        elif op == "update":
            t = rng.choice(run.live) if run.live and rng.random() < 0.85 else run.unknown()
            run.update(t, rng.choice(run.stored), rng.randint(0, M), fault)
        elif op == "delete":
            r = rng.random()
            if r < 0.1 and run.live:
                ts = list(run.live)
            else:
                n = rng.choice([0, 1, 1, 1, 2, 3])
                ts = rng.sample(run.live, min(n, len(run.live)))
            if rng.random() < 0.2:
                ts.insert(rng.randint(0, len(ts)), run.unknown())
            if rng.random() < 0.1 and ts:
                ts.append(ts[0])
            run.delete(ts, fault)
        elif op == "search":
            if kind == "annoy" and run.opened() and rng.random() < 0.8:
                if run.ev[-1]["op"] not in ("search", "same", "build") and rng.random() < 0.8:
                    run.simple("build")
            n = len(run.live)
            k = rng.choice([0, 1, 1, 2, 3, 5, n, n + 2, max(0, n - 1), 10])
            run.search(rng.randint(1, P), k, rng.choice([None, -1, 0.0, 0.3, 0.75]), fault)
        elif op == "bad":
            run.bad()
        elif op == "stats":
            run.stats()
        elif op == "storage":
            run.look_storage()
        elif op == "build":
            if kind == "annoy":
                run.simple("build")
        elif op == "clear":
            if kind in ("lsh", "annoy"):
                run.simple("clear")
        elif op == "close":
            run.close()
            if rng.random() < 0.3:
                run.close()
            if rng.random() < 0.4:
                run.stats()
                run.search(1, 1)
                run.insert([1])
        elif op == "init":
            if run.init(fault) != "ok":
                run.init()
        elif op == "newindex":
            run.newindex()
            run.init()
        elif op == "look":
            run.look()
        elif op == "save" and kind == "annoy":
            f = rng.choice(["f", "g.ann"])
            if rng.random() < 0.6 and run.opened():
                run.simple("build")
            run.simple("save", file=f)
        elif op == "load" and kind == "annoy":
            f = rng.choice(["f", "g.ann"])
            if run.simple("load", file=f) == "ok":
                # resynchronise the harness' guess of what is live from the index itself
                run.live = [run.id_tok(str(i)) for i in range(64)
                            if str(i) in run.ids][: 64]
                run.dead = []
                run.has_dim = True
        if run.alias is False and rng.random() < 0.1:
            run.look(nq=1)
    if not run.opened():
        run.init()
    run.look()
    return run.done()


def crowd(kind, rng, **kw):
    """An index of several hundred vectors, asked for few and for many."""
    run = new_run(kind, rng, npool=kw.pop("npool", 40), storage="memory", **kw)
    run.init()
    n = rng.choice([290, 420, 640])
    P, M = len(run.pool), len(run.metas)
    while len(run.live) < n:
        m = rng.choice([1, 17, 120, 300])
        run.insert([rng.choice(run.stored) for _ in range(m)], [rng.randint(0, M) for _ in range(m)])
        if run.ev[-1]["r"] != "ok":
            break
    run.delete(rng.sample(run.live, min(9, len(run.live))))
    if kind == "annoy":
        run.simple("build")
    n = len(run.live)
    for k in (n // 2, n, 7, 260, n + 3):
        run.search(rng.randint(1, P), k, rng.choice([None, -1]))
    run.stats()
    return run.done()


# -------------------------------------------------------- model behaviours
def gen_cfg(kind, metric="cosine", slots=3, nclus=2, files=()):
    return """INIT Init
NEXT Next
CONSTANTS Kind = "%s" Metric = "%s" Slots = {%s} NClus = %d Files = {%s}
INVARIANTS Satisfiable%s
""" % (kind, metric, ",".join(str(i + 1) for i in range(slots)), nclus,
       ",".join('"%s"' % f for f in files), " Strict" if metric != "euclidean" else "")


_graphs = {}


def graph(ck, kind, slots=None, files=()):
    metric = {"annoy": "angular"}.get(kind, "cosine")
    slots = slots or (2 if kind == "annoy" else 3)
    return ck.edges("IndexGen", gen_cfg(kind, metric, slots, files=files), env={"EMIT": "1"})


def replay(kind, tour, rng, look=0.15, **kw):
    """Replay one behaviour of IndexGen on a real index."""
    if kind == "ivf":
        kw["cfg"] = dict(kw.get("cfg", {}), n_clusters=2)
    run = new_run(kind, rng, **kw)
    slot, P, M = {}, len(run.pool), len(run.metas)

    def tok(s):
        if s not in slot:
            slot[s] = run.unknown()
        return slot[s]
    # the two stored vectors of the model stand for two (or more) of the pool
    two = [rng.randint(1, P) for _ in range(2)]
    for e in tour:
        o = e["op"]
        if o == "insert":
            n0 = len(run.live)
            vs = [two[v - 1] for v in e["vs"]] if rng.random() < 0.7 else \
                [rng.randint(1, P) for _ in e["vs"]]
            run.insert(vs, None if rng.random() < 0.4 else [rng.randint(0, M) for _ in vs])
            if len(run.live) - n0 == len(e["ids"]):
                for s, t in zip(e["ids"], run.live[n0:]):
                    slot[s] = t
        elif o == "update":
            run.update(tok(e["id"]), rng.randint(1, P), 0 if e["m"] == 0 else rng.randint(1, M))
        elif o == "delete":
            run.delete([tok(s) for s in e["ids"]])
        elif o == "init":
            run.init()
        elif o == "close":
            run.close()
        elif o in ("build", "clear"):
            run.simple(o)
        elif o in ("save", "load"):
            run.simple(o, file=e["file"])
            if o == "load":
                run.live, run.dead = [t for t in slot.values()], []
        if rng.random() < look and run.opened():
            c = rng.random()
            if c < 0.5:
                if kind == "annoy" and rng.random() < 0.5 and e["op"] == "build" or kind != "annoy":
                    run.search(rng.randint(1, P), rng.choice([1, 2, 3, 10]), thr=rng.choice([None, -1, 0.5]))
            elif c < 0.75:
                run.stats()
            else:
                run.look_storage()
    if not run.opened():
        run.init()
    run.look()
    return run.done()

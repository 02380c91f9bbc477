"""Drives the helper functions and records traces for TrHelpers."""
import copy
import os
import shutil

import numpy as np

import core
import valori_env  # noqa: F401
from drv_quant import triple, inorm
from values import akey as exact_key, array_pool, canon, spoil_array, spoil_meta

SUFFIX = {"npz": ".npz", "pickle": ".pkl", "json": ".json"}
JSON_METAS = [{}, {"a": 1}, {"a": 1.0}, {"a": "1"}, {"a": None}, {"a": True}, {"k": [1, [2, {"z": []}]]},
              {"nested": {"x": {"y": {"z": 1.5e300}}}}, {"u": "\xe4 \u2028 \U0001f600 \" \\ \n"},
              {"l": list(range(60))}, {"": ""}, {"id": "x", "vectors": [1], "shape": [3]}, {"big": 2**80}]
OTHER_METAS = [{"t": (1, 2)}, {1: "intkey"}, {"b": b"\x00\xff"}, {"s": {1, 2}}, {"n": float("inf")}]


def akey(a):
    """Type, shape and values; numpy's pickles do not keep the byte order."""
    if isinstance(a, np.ndarray):
        a = a.astype(a.dtype.newbyteorder("="))
    return exact_key(a)


def jkey(a):
    if not isinstance(a, np.ndarray):
        return ("notarray", repr(type(a)))
    return (a.shape, repr(a.tolist()))


class HRun:
    def __init__(self, rng):
        self.rng = rng
        self.dir = core.fresh_dir("hlp")
        self.trace = [{"op": "reset"}]
        pool = [a for a in array_pool(rng, 24) if a.dtype.kind in "fiub" and jkey(a)[1].find("big") < 0]
        mats = []
        for _ in range(8):
            g = np.random.RandomState(rng.randint(0, 2**31 - 1))
            a = g.normal(size=(rng.choice([0, 1, 2, 7]), rng.choice([0, 1, 3, 16]))) * 10.0 ** rng.randint(-6, 6)
            a = a.astype(rng.choice(["f8", "f4", "f2", ">f8"])) if rng.random() < 0.8 else a.astype("i8")
            mats.append(np.asfortranarray(a) if rng.random() < 0.3 else a)
        self.arrays, keys = [], set()
        for a in mats + pool:
            if jkey(a) not in keys:
                keys.add(jkey(a))
                self.arrays.append(a)
        self.metas, mk = [], set()
        for _ in range(6):
            src = JSON_METAS if rng.random() < 0.7 else JSON_METAS + OTHER_METAS
            m = [copy.deepcopy(rng.choice(src)) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
            if canon(m) not in mk:
                mk.add(canon(m))
                self.metas.append(m)
        self.vtok = {akey(a): i + 1 for i, a in enumerate(self.arrays)}
        self.jtok = {jkey(a): i + 1 for i, a in enumerate(self.arrays)}
        self.mtok = {canon(m): i + 1 for i, m in enumerate(self.metas)}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return self.trace

    def rec(self, e, f, arrays=(), objs=()):
        ac = [a.copy() for a in arrays]
        oc = [copy.deepcopy(o) for o in objs]
        out = None
        try:
            out = f()
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
        e["intact"] = all(akey(a) == akey(b) for a, b in zip(arrays, ac)) and \
            all(canon(a) == canon(b) for a, b in zip(objs, oc))
        self.trace.append(e)
        return e, out

    # ------------------------------------------------------------- files
    def path(self, name, fmt):
        p = os.path.join(self.dir, name + SUFFIX.get(fmt, ".npz"))
        if self.rng.random() < 0.5:
            from pathlib import Path
            return Path(p)
        return p

    def save(self, name, fmt):
        from valori.utils.helpers import save_vectors_to_file
        jm = [m for m in self.metas if all(x in JSON_METAS for x in m)]
        a = self.rng.choice(self.arrays)
        ms = (jm or [[]]) if fmt == "json" else self.metas
        m = copy.deepcopy(self.rng.choice(ms))
        self.mtok.setdefault(canon(m), len(self.mtok) + 1)
        b = a.copy(order="K")
        e = {"op": "save", "file": name + SUFFIX.get(fmt, ".npz"), "fmt": fmt, "v": self.vtok[akey(a)], "m": self.mtok[canon(m)]}
        p = self.path(name, fmt)
        if fmt == "npz" and self.rng.random() < 0.3:
            self.rec(e, lambda: save_vectors_to_file(b, m, p), [b], [m])
        else:
            self.rec(e, lambda: save_vectors_to_file(b, m, p, format=fmt), [b], [m])
        spoil_array(b)
        spoil_meta(m)

    def load(self, name, fmt):
        from valori.utils.helpers import load_vectors_from_file
        p = self.path(name, fmt)
        e = {"op": "load", "file": name + SUFFIX[fmt], "v": 0, "m": 0}
        e, out = self.rec(e, lambda: load_vectors_from_file(p))
        if out is not None:
            e["v"] = (self.jtok if fmt == "json" else self.vtok).get((jkey if fmt == "json" else akey)(out[0]), -1)
            e["m"] = self.mtok.get(canon(out[1]), -1)
            spoil_array(out[0])
            spoil_meta(out[1])

    # ------------------------------------------------------------- vectors
    def vectors(self):
        rng = self.rng
        d = rng.choice([1, 2, 2, 3, 3, 5])
        n = rng.choice([0, 1, 2, 3, 5, 8, 12])
        dt = rng.choice(["f8", "f8", "f4", "f4", "f2", "i8", "i4", "i2", "i1", "u1"])
        lim = {1: 12, 2: 11, 3: 8}.get(d, 4)
        vs = []
        while len(vs) < n:
            r = rng.random()
            if vs and r < 0.2:
                v = list(rng.choice(vs))
            elif vs and r < 0.35:
                v = list(rng.choice(vs))
                j = rng.randrange(d)
                v[j] += rng.choice([-1, 1])
            elif r < 0.42:
                v = [0] * d
            else:
                v = [rng.randint(-lim, lim) for _ in range(d)]
                if d > 1:
                    v = list(triple(v[:-1]) or v)
            if dt == "u1":
                v = [abs(x) for x in v]
            if inorm(v) is not None and sum(x * x for x in v) <= 300:
                vs.append(v)
        a = np.array(vs, dtype=dt).reshape(n, d)
        r = rng.random()
        if r < 0.2:
            a = np.asfortranarray(a)
        elif r < 0.3 and n:
            a = np.repeat(a, 2, axis=0)[::2]
        return vs, [inorm(v) for v in vs], a

    def moved(self, metric, a):
        """Distances do not change when all vectors are moved; exactly representable everywhere."""
        far = {"f8": 10 ** 8, "i8": 10 ** 8, "i4": 10 ** 8, "f4": 10 ** 6, "f2": 1000}.get(a.dtype.str[1:])
        if metric == "euclidean" and far and self.rng.random() < 0.5:
            a += np.array(self.rng.choice([-far, far, far // 4]), dtype=a.dtype)
        return a

    def matrix(self):
        from valori.utils.helpers import compute_similarity_matrix
        vs, norm, a = self.vectors()
        metric = self.rng.choice(["cosine", "euclidean", "dot"])
        a = self.moved(metric, a)
        e = {"op": "matrix", "metric": metric, "vs": vs, "norm": norm, "sim": []}
        if metric == "cosine" and self.rng.random() < 0.3:
            e, out = self.rec(e, lambda: compute_similarity_matrix(a), [a])
        else:
            e, out = self.rec(e, lambda: compute_similarity_matrix(a, metric=metric), [a])
        if out is not None:
            e["sim"] = scaled(out, 1 if metric == "dot" else 1000)

    def normalize(self):
        from valori.utils.helpers import normalize_vectors
        vs, norm, a = self.vectors()
        if not vs:
            return
        method = self.rng.choice(["l2", "l1", "max", "minmax"])
        e = {"op": "normalize", "method": method, "vs": vs, "norm": norm, "out": []}
        e, out = self.rec(e, lambda: normalize_vectors(a, method), [a])
        if out is not None:
            e["out"] = scaled(out, 1000)

    def dup(self):
        from valori.utils.helpers import find_duplicates
        vs, norm, a = self.vectors()
        metric = self.rng.choice(["cosine", "euclidean", "dot"])
        a = self.moved(metric, a)
        t = self.threshold(metric, vs, norm)
        if t is None:
            return
        e = {"op": "dup", "metric": metric, "t": t, "vs": vs, "norm": norm, "groups": []}
        th = t if metric == "dot" else t / 1000
        kw = {"threshold": th, "metric": metric}
        if metric == "cosine":
            if t == 990:
                del kw["threshold"]
            if self.rng.random() < 0.3:
                del kw["metric"]
        e, out = self.rec(e, lambda: find_duplicates(a, **kw), [a])
        if out is not None:
            e["groups"] = [[int(x) for x in g] for g in out]

    def threshold(self, metric, vs, norm):
        rng = self.rng
        for _ in range(20):
            if metric == "dot":
                return rng.choice([rng.randint(-60, 120), 0] + [
                    sum(x * y for x, y in zip(rng.choice(vs), rng.choice(vs))) for _ in range(2) if vs])
            if metric == "euclidean":
                t = rng.choice([0, -5, 1000, 1001, 500, 250, 200, rng.randint(1, 999), rng.randint(100, 400)])
            else:
                t = rng.choice([990, 900, 0, -500, 950, 1001, rng.randint(-999, 999), rng.randint(700, 999)])
            ok = True
            for i in range(len(vs)):
                for j in range(i):
                    if metric == "euclidean":
                        d = sum((x - y) ** 2 for x, y in zip(vs[i], vs[j])) ** 0.5
                        if d != int(d) and abs(1000 / (1 + d) - t) < 0.5:
                            ok = False
                    elif norm[i] * norm[j]:
                        c = 1000 * sum(x * y for x, y in zip(vs[i], vs[j])) / (norm[i] * norm[j])
                        if abs(c - t) < 0.5:
                            ok = False
            if ok:
                return t
        return None

    # ------------------------------------------------------------- search
    def search(self):
        from valori.indices import FlatIndex, HNSWIndex, LSHIndex
        from valori.storage import MemoryStorage
        from valori.utils.helpers import batch_search
        rng = self.rng
        g = np.random.RandomState(rng.randint(0, 2**31 - 1))
        dim = rng.choice([1, 3, 6])
        cls = rng.choice([FlatIndex, FlatIndex, HNSWIndex, LSHIndex])
        ix = cls({"metric": rng.choice(["cosine", "euclidean"]), "n_clusters": 2, "num_hash_tables": 2})
        st = MemoryStorage({})
        st.initialize()
        ix.initialize(st)
        n = rng.choice([1, 3, 12])
        ix.insert(g.normal(size=(n, dim)).astype("f4"), [{"i": i} for i in range(n)])
        q = g.normal(size=(rng.choice([0, 1, 2, 5, 9]), dim)).astype(rng.choice(["f4", "f8"]))
        if len(q) > 1 and rng.random() < 0.4:
            q[-1] = q[0]
        if rng.random() < 0.3:
            q = np.asfortranarray(q)
        k, b = rng.choice([0, 1, 2, 10, 50]), rng.choice([1, 2, 3, 4, 100, len(q) or 1])
        ref = [ix.search(x, k=k) for x in q]
        toks = {}

        def tok(rs):
            return [toks.setdefault(repr((r["id"], r["distance"], canon(r.get("metadata")))), len(toks) + 1) for r in rs]
        e = {"op": "search", "k": k, "batch": b, "ref": [tok(r) for r in ref], "res": []}
        if k == 10 and b == 100:
            e, out = self.rec(e, lambda: batch_search(ix, q), [q])
        else:
            e, out = self.rec(e, lambda: batch_search(ix, q, k=k, batch_size=b), [q])
        if out is not None:
            e["res"] = [tok(r) for r in out]

    def bad(self):
        from valori.utils import helpers as H
        a = np.eye(3)
        f = self.rng.choice([lambda: H.compute_similarity_matrix(a, "manhattan"),
                             lambda: H.find_duplicates(a, 0.5, "Cosine"),
                             lambda: H.normalize_vectors(a, "l3")])
        self.rec({"op": "badmetric"}, f, [a])


def scaled(a, f):
    a = np.asarray(a, dtype=np.float64)
    if a.ndim != 2:
        return [["not a matrix"]]
    return [[-9999 if x != x else int(round(min(max(x * f, -20000), 20000))) for x in row] for row in a]


def files(rng, n=30):
    h = HRun(rng)
    names = ["a", "b", "with.dots", "\xfcn\xef"]
    try:
        for _ in range(n):
            r = rng.random()
            name, fmt = rng.choice(names), rng.choice(list(SUFFIX))
            if r < 0.45:
                h.save(name, fmt)
            elif r < 0.5:
                h.save(name, rng.choice(["csv", "", "NPZ"]))
            else:
                h.load(name, fmt)
    finally:
        h.close()
    return h.trace


def vectors(rng, n=12):
    h = HRun(rng)
    try:
        for _ in range(n):
            rng.choice([h.matrix, h.normalize, h.dup, h.dup, h.search, h.bad])()
    finally:
        h.close()
    return h.trace

"""Drives the real quantizers and records traces for TrQuant."""
import math
import random

import numpy as np

import valori_env  # noqa: F401


def triple(v):
    """Extend an integer vector so that its Euclidean norm is an integer."""
    n2 = sum(x * x for x in v)
    for t in range(0, 60):
        r = math.isqrt(n2 + t * t)
        if r * r == n2 + t * t:
            return tuple(v) + (t,)
    return None


def inorm(v):
    r = math.isqrt(sum(x * x for x in v))
    return r if r * r == sum(x * x for x in v) else None


class QRun:
    """One quantizer and the trace of what was done to it."""

    def __init__(self, kind, rng, big=False):
        from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer
        self.kind, self.rng = kind, rng
        self.scale = 1.0 if rng.random() < 0.5 else 2.0 ** rng.randint(-12, 12)
        self.dtype = rng.choice([np.float64, np.float64, np.float32, np.float32, np.float16])
        if rng.random() < 0.25:
            self.scale, self.dtype = 1.0, rng.choice([np.int8, np.uint8, np.int16, np.int32, np.int64])
        if self.dtype is np.float16:
            self.scale = 1.0
        self.unsigned = self.dtype is np.uint8
        # The whole vocabulary of a product run may lie far from the origin: codes, decoded
        # vectors and distances are the same up to that translation.
        self.off = 0.0
        if kind == "product" and not big and self.dtype in (np.float32, np.float64) and rng.random() < 0.3:
            self.off = float(rng.choice([-1000, 500, 2000]))
        e = {"op": "reset", "kind": kind, "bits": 8, "m": 1, "k": 1, "nseg": 1, "total": 1, "rescore": 0}
        if kind == "scalar":
            e["bits"] = rng.choice([1, 2, 3, 4, 7, 8, 8, 8, 12, 16, 24, 31, 32, 62, 63, 64, 70])
            self.dim0 = rng.randint(1, 5)
            cfg = {"bits": e["bits"]}
            if e["bits"] == 8 and rng.random() < 0.5:
                cfg = {}
            self.q = ScalarQuantizer(cfg)
        elif kind == "product":
            e["m"], e["k"] = rng.randint(1, 3), rng.choice([1, 2, 3, 4, 6, 8])
            self.dim0 = e["m"] * rng.randint(1, 3)
            if big:
                e["m"], e["k"], self.dim0 = 2, big, 4
            self.q = ProductQuantizer({"m": e["m"], "k": e["k"]})
        else:
            e["nseg"], e["rescore"] = rng.randint(1, 5), rng.choice([0, 1, 2, 3, 50])
            e["total"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 33, 64])
            self.dim0 = rng.randint(1, 6)
            if big:
                e["nseg"], e["rescore"], e["total"], self.dim0 = rng.randint(1, 2), rng.choice([20, 40, 60]), rng.choice([7, 8]), 3
            cfg = {"n_segments": e["nseg"], "total_bits": e["total"], "rescore_top_k": e["rescore"],
                   "adjustment_iters": rng.choice([0, 1, 3])}
            self.q = SAQQuantizer(cfg)
        self.c = e
        self.big = big
        self.trace = [e]
        self.train_vs = self.codes = None
        self.dim = None
        self.last = []

    # ---- plumbing
    def rec(self, op, f, args=(), **kw):
        copies = [a.copy() for a in args]
        e = {"op": op, "intact": True, **kw}
        try:
            e["r"] = "ok"
            out = f()
        except Exception as ex:  # noqa: BLE001
            e["r"], out, e["x_"] = "err", None, "%s: %s" % (type(ex).__name__, str(ex)[:120])
            if type(ex).__name__ not in ("QuantizationError",):
                e["foreign"] = True
        for a, b in zip(args, copies):
            if a.dtype != b.dtype or a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                e["intact"] = False
        self.trace.append(e)
        return e, out

    def arr(self, vs, dim=None):
        a = np.array(vs, dtype=np.float64).reshape(len(vs), -1 if vs else (dim or 0))
        a = ((a + self.off) * self.scale).astype(self.dtype)
        r = self.rng.random()
        if r < 0.2:
            a = np.asfortranarray(a)
        elif r < 0.3 and len(a):
            a = np.repeat(a, 2, axis=0)[::2]      # not contiguous
        return a

    def real(self, y):
        y = float(y)
        if y != y:
            return [-9999, 0]
        y = y / self.scale - self.off
        y = min(max(y, -9000.0), 9000.0)
        f = math.floor(y)
        u = int(round((y - f) * 1e6))
        if u == 1000000:
            f, u = f + 1, 0
        return [int(f), u]

    def scaled(self, y):
        f, u = self.real(y)
        return 256 * f + (256 * u + 500000) // 1000000

    def vec(self, dim, lim=12):
        lo = 0 if self.unsigned else -lim
        return [self.rng.randint(lo, lim) for _ in range(dim)]

    # ---- operations
    def init(self):
        self.rec("init", self.q.initialize)
        self.train_vs = None

    def close(self):
        self.rec("close", self.q.close)
        self.train_vs = None

    def stats(self):
        st = {}

        def f():
            st.update(self.q.get_stats())
        e, _ = self.rec("stats", f)
        e["open"] = st.get("status") != "not_initialized" and e["r"] == "ok"
        e["trained"] = bool(st.get("trained", False))

    def training_set(self):
        rng = self.rng
        if self.kind == "saq":
            while True:
                d = max(1, self.dim0 + rng.choice([-1, 0, 0, 0, 1]))
                n = rng.choice([1, 2, 3, 5, 9, 20, 40])
                if self.big:
                    d, n = 3, self.big
                vs = []
                while len(vs) < n:
                    if vs and rng.random() < 0.15:
                        vs.append(list(rng.choice(vs)))
                        continue
                    if d == 1:
                        vs.append(self.vec(1))
                        continue
                    lim = {2: 12, 3: 9, 4: 6}.get(d, 3)
                    v = triple(self.vec(d - 1, lim))
                    if v is None or sum(x * x for x in v) > 1600:
                        continue
                    v = list(v)
                    if not self.unsigned and rng.random() < 0.5:
                        v[-1] = -v[-1]
                    if d > 2 and rng.random() < 0.3:
                        rng.shuffle(v)
                    vs.append(v)
                if rng.random() < 0.15 and d > 1:      # a constant dimension
                    vs = [[x if i != 0 else 0 for i, x in enumerate(v)] for v in vs]
                    vs = [v if inorm(v) is not None else [0] * d for v in vs]
                if rng.random() < 0.1:
                    vs = [vs[0]] * len(vs)
                return vs
        if self.kind == "product":
            if self.big:
                n = rng.choice([max(self.c["k"], 258), 300])
                lim = 12
                s = set()
                while len(s) < n:
                    s.add(tuple(self.vec(self.dim0, lim)))
                return [list(v) for v in s]
            d = self.c["m"] * rng.randint(1, 3) if rng.random() < 0.3 else self.dim0
            n = rng.choice([1, 2, 3, 4, 6, 9, 15])
            if rng.random() < 0.2:
                pool = [self.vec(d, 8) for _ in range(2)]
                return [list(rng.choice(pool)) for _ in range(n)]
            return [self.vec(d, rng.choice([2, 12])) for _ in range(n)]
        d = max(1, self.dim0 + rng.choice([-1, 0, 0, 0, 1]))
        n = rng.choice([1, 2, 3, 5, 10])
        lim = rng.choice([1, 5, 12, 25, 100 if self.dtype is not np.float16 else 25])
        if rng.random() < 0.3 and self.dtype is np.int8:
            lim = 127
        return [self.vec(d, lim) for _ in range(n)]

    def train(self, vs=None):
        vs = vs if vs is not None else self.training_set()
        if self.kind == "product" and len(vs[0]) % self.c["m"]:
            vs = [v[: self.c["m"]] * 1 for v in vs]
        if self.kind == "saq" and self.c["total"] < min(self.c["nseg"], len(vs[0])):
            a = self.arr(vs)
            self.rec("badtrain", lambda: self.q.train(a), (a,))
            return
        a = self.arr(vs)
        e, _ = self.rec("train", lambda: self.q.train(a), (a,), vs=vs, book=[], segs=[], bits=[], norm=[])
        if e["r"] != "ok":
            return
        keep = vs
        a[...] = 0          # the caller's array is the caller's
        self.train_vs, self.dim, self.last, self.codes = keep, len(keep[0]), [], None
        if self.kind == "product":
            e["book"] = self.read_book()
        if self.kind == "saq":
            e["norm"] = [inorm(v) for v in vs]
            st = self.q.get_stats()
            try:
                e["segs"] = [[int(a), int(b)] for a, b in st["segment_boundaries"]]
                e["bits"] = [int(b) for b in st["segment_bits"]]
            except Exception:  # noqa: BLE001
                e["segs"], e["bits"] = [[-1, -1]], [0]

    def read_book(self):
        """The codewords, as decoding gives them."""
        st = self.q.get_stats()
        ek, m = int(st["effective_k"]), self.c["m"]
        codes = np.array([[j] * m for j in range(ek)], dtype=np.int64)
        dec = self.q.dequantize(codes)
        sd = self.dim // m
        return [[[self.scaled(dec[j, i * sd + t]) for t in range(sd)] for j in range(ek)] for i in range(m)]

    def inputs(self, n):
        rng, out = self.rng, []
        d = self.dim if self.dim else self.dim0
        for _ in range(n):
            r = rng.random()
            if self.train_vs and r < 0.3:
                out.append(list(rng.choice(self.train_vs)))
            elif self.last and r < 0.6:
                out.append(list(rng.choice(self.last)))
            elif self.train_vs and r < 0.8:
                a, b = rng.choice(self.train_vs), rng.choice(self.train_vs)
                out.append([rng.choice(p) for p in zip(a, b)])
            else:
                out.append(self.vec(d, rng.choice([3, 12, 30]) if self.kind != "product" else 12))
        return out

    def quant(self, n):
        xs = self.inputs(n)
        d = self.dim if self.dim else self.dim0
        a = self.arr(xs, d) if xs else np.zeros((0, d), dtype=self.dtype)
        if n == 0 and self.kind == "saq":
            return        # scikit-learn refuses empty batches
        got = {}

        def f():
            codes = self.q.quantize(a)
            got["code"] = codes
            got["copy"] = codes.copy()
            got["y"] = self.q.dequantize(codes)
            if not np.array_equal(codes, got["copy"]):
                got["changed"] = True
        e, _ = self.rec("quant", f, (a,), x=xs, code=[], y=[])
        if e["r"] != "ok":
            return
        if got.get("changed"):
            e["intact"] = False
        code, y = got["code"], got["y"]
        if code.ndim != 2 or y.ndim != 2:
            e["code"] = []
            e["y"] = [[0]] * (len(xs) + 1)
            return
        big = self.c["bits"] > 30 and self.kind == "scalar"
        e["code"] = [[0 if big else int(v) for v in row] for row in code]
        e["y"] = [[self.real(v) for v in row] for row in y]
        self.last = (self.last + xs)[-6:]
        self.codes = code

    def badtrain(self):
        rng = self.rng
        d = self.dim or self.dim0
        opts = ["empty", "rank1", "rank3", "zero"]
        if np.dtype(self.dtype).kind == "f":
            opts += ["nan", "inf"]
        if self.kind == "product" and self.c["m"] > 1:
            opts += ["m", "m"]
        w = rng.choice(opts)
        n = rng.choice([1, 3])
        d2 = rng.choice([d, d + 1]) if self.kind != "product" else d
        a = {"empty": lambda: np.zeros((0, d2)), "zero": lambda: np.zeros((2, 0)), "rank1": lambda: np.ones(d),
             "rank3": lambda: np.ones((2, d, 1)), "nan": lambda: self._spoil(n, d2, np.nan),
             "inf": lambda: self._spoil(n, d2, rng.choice([np.inf, -np.inf])),
             "m": lambda: np.ones((3, d + 1))}[w]()
        a = a.astype(self.dtype)
        e, _ = self.rec("badtrain", lambda: self.q.train(a), (a,), what=w)

    def _spoil(self, n, d, v):
        a = np.array([self.vec(d) for _ in range(n)], dtype=float)
        a[self.rng.randrange(n), self.rng.randrange(d)] = v
        return a

    def badquant(self):
        rng = self.rng
        d = self.dim or self.dim0
        w = rng.choice(["dim+", "dim-", "rank1", "rank3"])
        a = {"dim+": np.ones((2, d + 1)), "dim-": np.ones((2, d - 1)), "rank1": np.ones(d),
             "rank3": np.ones((2, d, 1))}[w].astype(self.dtype)
        self.rec("badquant", lambda: self.q.quantize(a), (a,), what=w)

    def decode(self):
        """Decode codes of earlier vectors, in any order, once more."""
        rng = self.rng
        if self.train_vs is None:
            a = np.zeros((1, self.dim0), dtype=np.int64)
            self.rec("decode", lambda: self.q.dequantize(a), (a,), code=[], y=[])
            return
        if self.codes is None or not len(self.codes) or (self.c["bits"] > 30 and self.kind == "scalar"):
            return
        rows = [rng.randrange(len(self.codes)) for _ in range(rng.choice([1, 1, 2, 5]))]
        a = self.codes[rows]
        arg = a[0] if self.kind == "scalar" and len(rows) == 1 and rng.random() < 0.5 else a
        e, y = self.rec("decode", lambda: self.q.dequantize(arg), (arg,), code=[[int(v) for v in r] for r in a], y=[])
        if e["r"] == "ok":
            e["y"] = [[self.real(v) for v in row] for row in y] if y.ndim == 2 else []

    def dist(self):
        rng = self.rng
        if self.train_vs is None:
            a = np.ones(self.dim0)
            code = np.zeros(self.dim0, dtype=np.int64)
            self.rec("dist", lambda: self.q.compute_distance(a, code), (a, code), q=[], y=[], d=0)
            return
        xs = self.inputs(1)
        codes = self.q.quantize(self.arr(xs))
        y = self.q.dequantize(codes)[0]
        ql = max(1, self.dim + (0 if self.off else rng.choice([0, 0, 0, -1, 1])))
        q = self.vec(ql) if rng.random() < 0.9 else [0] * ql
        if self.off and rng.random() < 0.5:
            q = list(xs[0])
        qa = ((np.array(q, dtype=float) + self.off) * self.scale).astype(self.dtype)
        code = codes[0]
        if rng.random() < 0.2:
            qa = qa.reshape(1, -1)
        e, d = self.rec("dist", lambda: self.q.compute_distance(qa, code), (qa, code), q=q,
                        y=[self.real(v) for v in y], d=-99999)
        if e["r"] == "ok":
            d = float(d)
            if self.kind == "product":
                e["d"] = int(round(min(d / self.scale, 150.0) * 256)) if d == d else -99999
            else:
                e["d"] = int(round(max(min(d, 5.0), -5.0) * 1000)) if d == d else -99999

    def search(self):
        if self.kind != "saq":
            return
        rng = self.rng
        if self.train_vs is None:
            self.rec("search", lambda: self.q.search_with_rescoring(
                np.ones(self.dim0), np.zeros((2, 1), dtype=np.int32), 1), (), q=[], nq=0, k=1, idx=[], d=[], qd=[])
            return
        store = self.q.quantize(self.arr(self.train_vs))
        n = len(self.train_vs)
        while True:
            if self.big and rng.random() < 0.7:       # the last one, and the ends of rounds of 1000
                q = list(self.train_vs[rng.choice([-1, -1, -2, 999, 998])])
            elif rng.random() < 0.4:
                q = list(rng.choice(self.train_vs))
            elif self.dim == 1:
                q = self.vec(1)
            elif rng.random() < 0.1:
                q = [0] * self.dim
            else:
                t = triple(self.vec(self.dim - 1, 5))
                q = list(t) if t else None
            if q and inorm(q) is not None and sum(x * x for x in q) <= 1600:
                break
        if rng.random() < 0.15:
            q = q + [rng.randint(1, 5)]     # cut to the dimension
        k = rng.choice([0, 1, 2, 3, n - 1 if n > 1 else 1, n, n + 1, n + 5])
        if self.big:
            k = rng.choice([1, 5, 15])
        qa = (np.array(q, dtype=float) * self.scale).astype(self.dtype)
        e, out = self.rec("search", lambda: self.q.search_with_rescoring(qa, store, k), (qa, store),
                          q=q, nq=inorm(q[: self.dim]), k=k, idx=[], d=[], qd=[])
        if e["r"] == "ok":
            try:
                e["idx"] = [int(i) for i in out[0]]
                e["d"] = [int(round(max(min(float(x), 9.0), -9.0) * 100000)) if x == x else -1 for x in out[1]]
            except Exception:  # noqa: BLE001
                e["r"] = "err"
            for code in store:
                d = float(self.q.compute_distance(qa, code))
                e["qd"].append(int(round(max(min(d, 9.0), -9.0) * 100000)) if d == d else -999999)


def apply(run, op):
    o = op["op"]
    if o == "train":
        # the model's training sets 1..3 are fixed data of this run
        sets = run.__dict__.setdefault("sets", {})
        t = op.get("t")
        if t and not run.big:
            if t not in sets:
                sets[t] = run.training_set()
            run.train([list(v) for v in sets[t]])
        else:
            run.train()
    elif o == "quant":
        run.quant(op["n"])
    else:
        getattr(run, o)()


def random_history(kind, rng, n=40, big=False):
    run = QRun(kind, rng, big)
    run.init()
    ops = (["quant"] * 5 + ["decode"] * 2 + ["dist"] * 2 + ["search"] * 4 + ["train"] * 2 + ["badtrain", "badquant"]
           + ["stats", "init", "close"][: rng.randint(0, 3)])
    if big:
        run.train()
        ops = ["quant", "quant", "dist"] if kind == "product" else ["search"]
    for _ in range(n):
        o = rng.choice(ops)
        apply(run, {"op": o, "n": rng.choice([0, 1, 1, 2, 5])})
        if o in ("close", "init") and rng.random() < 0.8:
            if o == "close" and rng.random() < 0.5:
                apply(run, {"op": rng.choice(ops), "n": 1})
            run.init()
            run.train()
    return run.trace


def replay(kind, rng, ops):
    run = QRun(kind, rng)
    for op in ops:
        apply(run, op)
    return run.trace


def searches(rng, n):
    """Many searches of coarsely coded stores."""
    run = QRun("saq", rng)
    run.init()
    for _ in range(n):
        if run.train_vs is None or rng.random() < 0.15:
            run.train()
        run.search()
    return run.trace

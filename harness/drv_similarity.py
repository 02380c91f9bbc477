"""Drives valori.utils.similarity and records its values as fractions for TrSimilarity."""
from fractions import Fraction

import numpy as np
import valori_env  # noqa: F401

# dtype -> powers of two by which small integers may be scaled in it
SCALES = {"bool": [0], "int8": [0, 2, 5], "uint8": [0, 3, 6], "int16": [0, 8, 13], "uint16": [0, 14], "int32": [0, 16, 29],
          "uint32": [0, 30], "int64": [0, 33, 60], "uint64": [0, 61], "float16": [0, 8, 12, -8], "float32": [0, 60, 100, -60, -100],
          "float64": [0, 200, 400, -200, -400]}
# how far from the origin small integers are still told apart
FAR = {"int8": 100, "uint8": 200, "int16": 30000, "uint16": 60000, "int32": 2 * 10 ** 9, "uint32": 4 * 10 ** 9, "int64": 10 ** 15,
       "uint64": 10 ** 15, "float16": 1000, "float32": 10 ** 7, "float64": 10 ** 14}
MOVABLE = ("euclidean", "euclidean2", "manhattan", "chebyshev")
TOL = {"float16": 4e-3}


def fits(v, dt):
    lo = min(v)
    if dt == "bool":
        return set(v) <= {0, 1}
    return lo >= 0 or not dt.startswith("u")


def frac(x, tol=1e-5, den=1000):
    """The fraction with a small denominator that x stands for."""
    x = float(x)
    if not np.isfinite(x) or abs(x) > 1e6:
        return [0, 0]
    f = Fraction(x).limit_denominator(den)
    if abs(float(f) - x) > tol * max(1.0, abs(x)):
        return [0, 0]
    return [f.numerator, f.denominator]


def root(x, **kw):
    """Signed square of x as a fraction."""
    x = float(x)
    return frac(x * abs(x), **kw)


def make(rng, v, dt, k):
    """An array of the values v * 2^k, in some memory layout."""
    w = np.array([float(x) * 2.0 ** k for x in np.ravel(v)]).reshape(np.shape(v)).astype(dt)
    layout = rng.randrange(5)
    if layout == 0 and w.ndim == 1 and len(w):
        z = np.zeros(2 * len(w), dtype=dt)
        z[::2] = w
        w = z[::2]
    elif layout == 1:
        w.setflags(write=False)
    elif layout == 2:
        w = np.asfortranarray(w)
    elif layout == 3 and w.ndim == 1:
        w = w[::-1].copy()[::-1]
    return w


def pick(rng, v):
    dt = rng.choice([d for d in SCALES if fits(list(np.ravel(v)) or [0], d)])
    return dt, rng.choice(SCALES[dt])


FUN = {"cosine": "cosine_similarity", "cosine_distance": "cosine_distance", "euclidean": "euclidean_distance",
       "euclidean2": "euclidean_distance_squared", "dot": "dot_product", "manhattan": "manhattan_distance",
       "chebyshev": "chebyshev_distance", "hamming": "hamming_distance", "jaccard": "jaccard_similarity",
       "jaccard_distance": "jaccard_distance"}
RANGE = {"cosine": (-1, 1), "cosine_distance": (0, 2), "jaccard": (0, 1), "jaccard_distance": (0, 1)}


def call(e, f):
    try:
        e["r"] = "ok"
        return f()
    except ValueError as x:
        e["r"], e["x_"] = "value_error", str(x)[:80]
    except Exception as x:  # noqa: BLE001
        e["r"], e["x_"] = type(x).__name__, str(x)[:80]
    return None


def measure(rng, m, a, b, wrong=None):
    from valori.utils import similarity as S
    da, ka = pick(rng, a)
    if m in ("dot", "cosine", "cosine_distance"):
        db, kb = pick(rng, b)
    else:
        fit = [(d, ka) for d in SCALES if fits(list(np.ravel(b)) or [0], d) and ka in SCALES[d]]
        if not fit or rng.random() < 0.3:
            fit = [(d, k) for d, k in ((da, ka),) if fits(list(np.ravel(b)) or [0], d)] or fit
        if not fit:
            ka, da, fit = 0, "float64", [("float64", 0)]
        db, kb = rng.choice(fit)
    off = 0
    if m in MOVABLE and not wrong and rng.random() < 0.4:
        # the same distance far from the origin: every coordinate moved by off
        ka = kb = 0
        da, db = rng.choice([d for d in FAR if fits(list(np.ravel(a)) or [0], d)]), rng.choice([d for d in FAR if fits(list(np.ravel(b)) or [0], d)])
        off = min(FAR[da], FAR[db]) // rng.choice([1, 1, 2, 1000])
        off = off if off < 100 else rng.choice([off, -off if not (da + db).count("u") else off])
    x, y = make(rng, np.array(a) + off, da, ka), make(rng, np.array(b) + off, db, kb)
    if wrong == "2d":
        x = x.reshape(1, -1)
    if wrong == "2dboth":
        x, y = x.reshape(1, -1), y.reshape(1, -1)
    if wrong == "0d":
        y = np.float64(3)
    px, py = x.copy(), np.copy(y)
    e = {"op": "measure", "m": m, "a": list(a), "b": list(b), "sa": x.ndim, "sb": y.ndim, "v": [0, 0], "inrange": True,
         "da": da, "db": db, "ka": ka, "kb": kb, "moved": off != 0, "off": str(off)}
    v = call(e, lambda: getattr(S, FUN[m])(x, y))
    if e["r"] == "ok":
        if not np.array_equal(px, x) or not np.array_equal(py, y):
            e["r"] = "changed its arguments"
        elif np.ndim(v) != 0:
            e["r"] = "not a number"
        else:
            v = float(v)
            lo, hi = RANGE.get(m, (None, None))
            e["inrange"] = lo is None or lo <= v <= hi
            if m == "cosine":
                e["v"] = root(v)
            elif m == "cosine_distance":
                e["v"] = root(1 - v)
            elif m in ("euclidean",):
                e["v"] = frac((v * 2.0 ** -ka) ** 2 if v >= 0 else -1)
            elif m == "euclidean2":
                e["v"] = frac(v * 2.0 ** -ka * 2.0 ** -ka)
            elif m == "dot":
                e["v"] = frac(v * 2.0 ** -ka * 2.0 ** -kb)
            elif m in ("manhattan", "chebyshev"):
                e["v"] = frac(v * 2.0 ** -ka)
            else:
                e["v"] = frac(v)
    return e


def normalize(rng, kind, a, wrong=None):
    from valori.utils import similarity as S
    da, ka = pick(rng, a)
    while da == "float16" and (len(a) > 2 or max(map(abs, a)) > 2):
        da, ka = pick(rng, a)           # half precision cannot tell more values apart
    x = make(rng, a, da, ka)
    if wrong:
        x = x.reshape(1, -1)
    p = x.copy()
    e = {"op": "normalize", "kind": kind, "a": list(a), "sa": x.ndim, "vs": [], "kept": True, "da": da, "ka": ka}
    args = (x,) if kind == "l2" and rng.random() < 0.5 else (x, kind)
    v = call(e, lambda: S.normalize_vector(*args))
    if e["r"] == "ok":
        e["kept"] = bool(np.array_equal(p, x)) and v is not x and not np.shares_memory(v, x)
        t = TOL.get(str(v.dtype), 1e-5)
        e["vs"] = [root(t_, tol=t, den=(30 if t > 1e-3 else 1000)) for t_ in v.astype(np.float64)]
    return e


def batch(rng, A, B, d, wrong=None):
    from valori.utils import similarity as S
    da, ka = pick(rng, A)
    db, kb = pick(rng, B)
    x, y = make(rng, A, da, ka), make(rng, B, db, kb)
    if wrong == "flat":
        x = x.ravel()
    if wrong == "dim":
        y = np.hstack([y, y])
    e = {"op": "batch", "as": [list(v) for v in A], "bs": [list(v) for v in B], "sa": x.ndim, "sb": y.ndim,
         "da": int(x.shape[-1]), "db": int(y.shape[-1]), "vs": [], "inrange": True, "ta": da, "tb": db, "ka": ka, "kb": kb}
    px, py = x.copy(), y.copy()
    v = call(e, lambda: S.batch_cosine_similarity(x, y))
    if e["r"] == "ok":
        if not np.array_equal(px, x) or not np.array_equal(py, y):
            e["r"] = "changed its arguments"
        v = np.asarray(v, dtype=np.float64)
        e["inrange"] = bool(np.all(np.abs(v) <= 1))
        e["vs"] = [[root(t) for t in row] for row in v] if v.ndim == 2 else []
    return e


def vec(rng, d):
    r = rng.choice([1, 1, 2, 3]) if d <= 3 else 1
    lo = rng.choice([0, -r])
    v = [rng.randint(lo, r) for _ in range(d)]
    return [0] * d if rng.random() < 0.05 else v


def pair_run(rng, a, b):
    t = [{"op": "reset"}]
    for m in FUN:
        t.append(measure(rng, m, a, b))
    for k in ("l1", "l2", "max"):
        t.append(normalize(rng, k, a))
    return t


def random_run(rng):
    t = [{"op": "reset"}]
    for _ in range(12):
        d = rng.choice([1, 2, 3, 3, 4, 8, 12])
        a, b = vec(rng, d), vec(rng, d)
        if rng.random() < 0.15:
            b = list(a)
        if rng.random() < 0.1:
            b = [-x for x in a]
        z = rng.random()
        if z < 0.6:
            w = None
            if rng.random() < 0.06:
                w = rng.choice(["2d", "2dboth", "0d"])
            elif rng.random() < 0.04:
                b = vec(rng, d + 1)
            t.append(measure(rng, rng.choice(list(FUN)), a, b, w))
        elif z < 0.8:
            t.append(normalize(rng, rng.choice(["l1", "l2", "max", "l2", "l3", ""] if rng.random() < 0.2 else ["l1", "l2", "max"]),
                               a, rng.random() < 0.04))
        else:
            A = [vec(rng, d) for _ in range(rng.randint(1, 5))]
            B = [vec(rng, d) for _ in range(rng.randint(1, 5))]
            t.append(batch(rng, A, B, d, rng.choice(["flat", "dim"]) if rng.random() < 0.06 else None))
    return t

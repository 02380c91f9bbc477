"""Drives valori.utils.validation and records verdicts for TrValidate."""
import numpy as np
import valori_env  # noqa: F401

VAL = {"z": [0.0, -0.0], "n": [1.0, -2.5, 3.0, 1e-30], "nan": [float("nan")], "inf": [float("inf"), float("-inf")]}
FLOATS = ["float16", "float32", "float64"]
INTS = ["int8", "uint8", "int32", "int64", "bool"]


def verdict(e, f):
    from valori.exceptions import ValidationError
    try:
        r = f()
        e["r"] = "true" if r is True else "returned %r" % (r,)
    except ValidationError:
        e["r"] = "invalid"
    except BaseException as x:  # noqa: BLE001
        e["r"] = type(x).__name__
    return e


def limits(p):
    kw = {}
    if p["min"] != -1:
        kw["min_dim"] = p["min"]
    if p["max"] != -1:
        kw["max_dim"] = p["max"]
    if not p["zero"]:
        kw["allow_zero"] = False
    return kw


def array(rng, a, p, op):
    """One call on the array described by a."""
    from valori.utils import validation as V
    if a["kind"] == "nd":
        en = []
        for x in a["en"]:
            v = rng.choice(VAL[x]) if x in VAL else None
            if a["dt"] in INTS:
                v = 0 if x == "z" else 1
            elif a["dt"] == "float16" and x == "n":
                v = 1.5
            elif a["dt"] == "str":
                v = "x"
            en.append(v)
        dt = {"str": "U3"}.get(a["dt"], a["dt"])
        x = np.array(en, dtype=dt).reshape(a["shape"]) if en or 0 in a["shape"] else np.zeros(a["shape"], dtype=dt)
        if len(a["shape"]) == 0:
            x = np.array(en[0], dtype=dt)
    else:
        x = rng.choice([[1.0, 2.0], None, (1.0,), "abc", [[1.0, 2.0]], 3, {}])
    kw = limits(p)
    if p["dtype"]:
        kw["dtype"] = rng.choice([p["dtype"], np.dtype(p["dtype"]), np.dtype(p["dtype"]).type])
    f = V.validate_vector if op == "vector" else V.validate_vectors
    before = None if a["kind"] != "nd" else x.copy()
    e = verdict({"op": op, "a": a, "p": p}, lambda: f(x, **kw))
    if before is not None and not np.array_equal(before, x, equal_nan=x.dtype.kind == "f"):
        e["r"] = "changed its argument"
    return e


def given(rng, pairs):
    t = [{"op": "reset"}]
    for a, p in pairs:
        t.append(array(rng, a, p, "vector" if len(a["shape"]) == 1 else "vectors"))
    return t


def random_array(rng):
    dt = rng.choice(FLOATS + FLOATS + INTS + ["str", "object"])
    nd = rng.choice([1, 1, 1, 2, 2, 2, 0, 3])
    shape = [rng.choice([0, 1, 2, 3, 3, 4, 7]) for _ in range(nd)]
    n = int(np.prod(shape)) if nd else 1
    kinds = ["z", "n"]
    if rng.random() < 0.3:
        kinds = ["z"]
    elif rng.random() < 0.5:
        kinds = ["z", "n", "n", "n"]
    en = [rng.choice(kinds) for _ in range(n)]
    if dt in FLOATS and n and rng.random() < 0.3:
        en[rng.randrange(n)] = rng.choice(["nan", "inf"])
    if nd == 2 and n and rng.random() < 0.2:
        r = rng.randrange(shape[0])
        en[r * shape[1]:(r + 1) * shape[1]] = ["z"] * shape[1]
    if dt == "str":
        en = ["bad"] * n
    if dt == "object" and n and rng.random() < 0.5:
        en[rng.randrange(n)] = "bad"
    a = {"kind": "nd", "shape": shape, "dt": dt, "en": en}
    if rng.random() < 0.05:
        a = {"kind": "other", "shape": [], "dt": "object", "en": []}
    p = {"min": rng.choice([-1, -1, -1, 0, 1, 2, 3, 4]), "max": rng.choice([-1, -1, -1, 0, 1, 2, 3, 4]),
         "dtype": rng.choice(["", "", "", dt if dt not in ("str",) else "", "float32", "float64"]), "zero": rng.random() < 0.6}
    return array(rng, a, p, rng.choice(["vector", "vectors"]) if nd not in (1, 2) else ("vector" if nd == 1 else "vectors")
                 if rng.random() < 0.95 else rng.choice(["vector", "vectors"]))


STRS = ["a", "id", " ", "", "\t\n", "\u3000", "\u00a0", " a ", "\u200b", "0", "cosine", "\x1f", "\x85", "\u2003x"]


def scalar(rng, kinds=("int", "float", "str", "bool", "none", "nan", "inf", "list", "npint", "npfloat")):
    t = rng.choice(kinds)
    x = {"t": t, "v": 0, "s": []}
    h = rng.randint(-8, 8)
    if t == "int":
        x["v"] = 2 * (h // 2)
        return x, h // 2
    if t == "npint":
        x["v"] = 2 * (h // 2)
        return x, rng.choice([np.int64, np.int32])(h // 2)
    if t == "float":
        x["v"] = h
        return x, rng.choice([float, np.float64])(h / 2)
    if t == "npfloat":
        x["v"] = h
        return x, np.float32(h / 2)
    if t == "bool":
        b = rng.random() < 0.5
        x["v"] = 2 * int(b)
        return x, b
    if t == "str":
        s = rng.choice(STRS)
        x["s"] = [ord(c) for c in s]
        return x, s
    return x, {"none": None, "nan": float("nan"), "inf": rng.choice([float("inf"), float("-inf")]), "list": [1]}[t]


TYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "number": (int, float)}


def config(rng):
    from valori.utils import validation as V
    keys = ["a", "b", "c", "d"]
    c, real = {}, {}
    for k in keys:
        if rng.random() < 0.5:
            c[k], real[k] = scalar(rng)
    pick = lambda: [k for k in keys if rng.random() < rng.choice([0.2, 0.9])]
    p = {"required": ["none"], "allowed": ["none"], "types": {}, "ranges": {}}
    kw = {}
    if rng.random() < 0.4:
        p["required"] = kw["required_keys"] = pick()
    if rng.random() < 0.4:
        p["allowed"] = kw["allowed_keys"] = pick() if rng.random() < 0.4 else list(keys)
    if rng.random() < 0.4:
        p["types"] = {k: (c[k]["t"] if k in c and c[k]["t"] in TYPES and rng.random() < 0.7 else rng.choice(list(TYPES))) for k in pick()}
        kw["value_types"] = {k: TYPES[t] for k, t in p["types"].items()}
    if rng.random() < 0.6:
        for k in pick():
            lo = rng.randint(-8, 4)
            p["ranges"][k] = [lo, lo + rng.randint(0, 10)]
        kw["value_ranges"] = {k: (lo / 2, hi / 2) for k, (lo, hi) in p["ranges"].items()}
    e = {"op": "config", "c": c, "p": p, "dict": True}
    if rng.random() < 0.05:
        e["dict"], real = False, rng.choice([None, [], "x", [("a", 1)]])
    return verdict(e, lambda: V.validate_config(real, **kw))


METRICS = ["cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard", "Cosine", "cosine ", "", "l2", "dot", "cos"]


def metric(rng):
    from valori.utils import validation as V
    if rng.random() < 0.15:
        m = rng.choice([None, 3, ["cosine"], b"cosine", ("cosine",)])
        return verdict({"op": "metric", "t": "other", "m": ""}, lambda: V.validate_metric(m))
    m = rng.choice(METRICS)
    return verdict({"op": "metric", "t": "str", "m": m}, lambda: V.validate_metric(m))


def kk(rng):
    from valori.utils import validation as V
    x, v = scalar(rng, ("int", "int", "int", "npint", "bool", "float", "str", "none", "nan"))
    if x["t"] in ("int", "npint", "bool"):
        x["v"] //= 2
    mx = rng.choice([-1, -1, 0, 1, 2, 3, 4])
    return verdict({"op": "k", "x": x, "max": mx}, lambda: V.validate_k(v) if mx == -1 else V.validate_k(v, mx))


IDKINDS = ("int", "int", "str", "str", "str", "float", "none", "list", "bool", "npint")


def ident(rng):
    from valori.utils import validation as V
    x, v = scalar(rng, IDKINDS)
    return verdict({"op": "id", "x": x}, lambda: V.validate_id(v))


def idents(rng):
    from valori.utils import validation as V
    good = rng.random() < 0.6
    q = [scalar(rng, ("int", "str") if good else ("int", "int", "str", "str", "float", "none")) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    if good:
        q = [z for z in q if z[0]["t"] == "int" or z[1].strip()]
        if rng.random() < 0.6:
            seen, w = set(), []
            for x, v in q:
                if (type(v), v) not in seen:
                    seen.add((type(v), v))
                    w.append((x, v))
            q = w
        rng.shuffle(q)
    lst = rng.random() < 0.93
    vs = [v for _, v in q]
    arg = vs if lst else rng.choice([tuple(vs), None, "ab", {"a": 1}, {1, 2}])
    return verdict({"op": "ids", "list": lst, "q": [x for x, _ in q]}, lambda: V.validate_ids(arg))


GOODLEAF = [1, "x", 2.5, True, None, float("nan"), "", np.float64(1.5), -3, "caf\u00e9", "\ud800"]


def metadata(rng):
    from valori.utils import validation as V
    T = []

    def node(depth, top=False):
        i = len(T)
        T.append({"t": "leaf", "kids": [], "keys": []})
        z = rng.random()
        if top or (depth < 4 and z < 0.3):
            T[i]["t"], v = "dict", {}
            for j in range(rng.choice([0, 1, 1, 2, 3])):
                kind = rng.choice(["str"] * 12 + ["num", "none", "bad"]) if not top or rng.random() < 0.15 else "str"
                key = {"str": "k%d" % j, "num": 10 + j, "none": None, "bad": (j, 0)}[kind]
                if key in v:
                    continue
                T[i]["keys"].append(kind)
                T[i]["kids"].append(len(T) + 1)
                v[key] = node(depth + 1)
        elif depth < 4 and z < 0.5:
            T[i]["t"], v = "list", []
            for _ in range(rng.randint(0, 3)):
                T[i]["kids"].append(len(T) + 1)
                v.append(node(depth + 1))
            if rng.random() < 0.2:
                v = tuple(v)
        elif z < 0.56:
            T[i]["t"] = "bad"
            v = rng.choice([{1}, object(), b"x", np.zeros(2), np.float32(1), 1j, np.int64(3), len])
        else:
            v = rng.choice(GOODLEAF)
        return v
    z = rng.random()
    if z < 0.05:
        T.append({"t": "none", "kids": [], "keys": []})
        v = None
    elif z < 0.12:
        T.append({"t": "list", "kids": [], "keys": []})
        v = rng.choice([[], "x", 3, [("a", 1)], ()])
    elif z < 0.17:
        T += [{"t": "dict", "kids": [2], "keys": ["str"]}, {"t": "list", "kids": [rng.choice([2, 1])], "keys": []}]
        w = []
        v = {"a": w}
        w.append(w if T[1]["kids"] == [2] else v)
    elif z < 0.19:                        # deeper than the encoder goes
        T += [{"t": "dict", "kids": [2], "keys": ["str"]}, {"t": "too deep", "kids": [], "keys": []}]
        w = []
        for _ in range(100000):
            w = [w]
        v = {"a": w}
    else:
        v = node(0, True)
    return verdict({"op": "meta", "tree": T}, lambda: V.validate_metadata(v))


def random_run(rng):
    fs = [random_array, random_array, random_array, config, config, config, metric, kk, ident, idents, metadata, metadata]
    return [{"op": "reset"}] + [rng.choice(fs)(rng) for _ in range(25)]

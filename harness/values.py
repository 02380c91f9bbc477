"""Pools of concrete values and their tokens.

A trace talks about tokens (small integers); the harness maps concrete arrays and
metadata objects to tokens by exact content (dtype, shape and bytes for arrays;
types and values for metadata).
"""
import copy

import numpy as np


def canon(x):
    """A canonical, hashable description of a metadata object, types included."""
    if isinstance(x, dict):
        return ("d", tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(repr(canon(v)) for v in x)))
    if isinstance(x, np.ndarray):
        return ("a", akey(x))
    if isinstance(x, float) and x != x:
        return ("float", "nan")
    return (type(x).__name__, repr(x))


def akey(a):
    if not isinstance(a, np.ndarray):
        return ("notarray", type(a).__name__, repr(a)[:80])
    return (a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes())


def array_pool(rng, n, plain=False):
    """n distinct arrays."""
    out, keys = [], set()
    dts = ["f4"] if plain else ["f4", "f8", "f2", "i4", "i8", "u1", "b1", "c8", ">f4", "f4", "f4"]
    while len(out) < n:
        dt = np.dtype(rng.choice(dts))
        r = rng.random()
        if plain or r < 0.6:
            shape = (rng.randint(1, 5),)
        elif r < 0.7:
            shape = (0,)
        elif r < 0.8:
            shape = ()
        elif r < 0.9:
            shape = (2, 3)
        else:
            shape = (rng.choice([64, 300]),)
        size = int(np.prod(shape))
        g = np.random.RandomState(rng.randint(0, 2**31 - 1))
        if dt.kind in "fc":
            a = g.normal(size=size).astype(dt)
            if not plain and size and rng.random() < 0.15 and dt.kind == "f":
                a[0] = rng.choice([np.nan, np.inf, -0.0])
        elif dt.kind == "b":
            a = g.randint(0, 2, size).astype(dt)
        else:
            a = g.randint(0, 100, size).astype(dt)
        a = a.reshape(shape)
        if a.ndim == 2 and rng.random() < 0.5:
            a = np.asfortranarray(a)
        elif a.ndim == 1 and size > 1 and rng.random() < 0.2:
            b = np.zeros(2 * size, dtype=a.dtype)
            b[::2] = a
            a = b[::2]          # a strided view
        k = akey(a)
        if k not in keys:
            keys.add(k)
            out.append(a)
    return out


def meta_pool(rng, n):
    """n distinct non-None metadata objects, {} among them."""
    base = [{}, {"a": 1}, {"a": 1.0}, {"a": "1"}, {"a": None}, {"k": [1, [2, {"z": [3]}]]},
            {"nested": {"x": {"y": {"z": 1}}}}, {"t": (1, 2)}, {"s": {1, 2, 3}},
            {"u": "äöü \u2028 \U0001f600"}, {1: "intkey", (1, 2): "tuplekey"}, {"b": b"\x00\xff"},
            {"big": "x" * 5000}, {"l": list(range(50))}, {"true": True}, {"one": 1},
            {"f": 1e300, "n": float("inf")}, {"": ""}, {"id": "x", "vector": [1]}]
    rng.shuffle(base)
    out = [copy.deepcopy(m) for m in base[:n]]
    i = 0
    while len(out) < n:
        out.append({"n": i, "tag": [rng.random()]})
        i += 1
    if not any(m == {} for m in out) and n > 1:
        out[rng.randrange(n)] = {}
    return out


def spoil_array(a):
    """Change an array in place (if it can be)."""
    try:
        if a.size and a.flags.writeable:
            if a.dtype.kind == "b":
                a[...] = ~a
            else:
                a[...] = a + 1 if not np.any(np.isnan(a.astype("c16"))) else 0
    except Exception:
        pass


def spoil_meta(m):
    """Change a metadata object in place, at every level."""
    if isinstance(m, dict):
        for v in list(m.values()):
            spoil_meta(v)
        for k in list(m):
            if not isinstance(m[k], (dict, list, set)):
                m[k] = "SPOILED"
        m["__spoiled__"] = 1
    elif isinstance(m, list):
        for v in m:
            spoil_meta(v)
        m.append("SPOILED")
    elif isinstance(m, set):
        m.add("SPOILED")
    elif isinstance(m, np.ndarray):
        spoil_array(m)


class Vocab:
    """Tokens for the values used in one trace."""

    def __init__(self, rng, nvec=6, nmeta=5, plain=False):
        self.arrays = array_pool(rng, nvec, plain)
        self.metas = meta_pool(rng, nmeta)
        self.vtok = {akey(a): i + 1 for i, a in enumerate(self.arrays)}
        self.mtok = {canon(m): i + 1 for i, m in enumerate(self.metas)}

    def vec(self, tok):
        a = self.arrays[(tok - 1) % len(self.arrays)]
        return a.copy() if a.flags.c_contiguous else (
            np.asfortranarray(a.copy()) if a.flags.f_contiguous else _strided(a))

    def meta(self, tok):
        return None if tok == 0 else copy.deepcopy(self.metas[(tok - 1) % len(self.metas)])

    def tok_v(self, a):
        return self.vtok.get(akey(a), -1)

    def tok_m(self, m):
        return 0 if m is None else self.mtok.get(canon(m), -1)


def _strided(a):
    b = np.zeros(2 * a.size, dtype=a.dtype)
    b[::2] = a
    return b[::2]

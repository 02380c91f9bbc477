"""Checks of chunking (modules Chunk, ChunkAlg)."""
import itertools
import random

import core
import drv_chunk as D

ALG = """INIT Init
NEXT Next
CONSTANTS N = %d SMax = %d Cap = %s
INVARIANT Fine
"""


def small_cases(n, smax):
    """The texts and configurations of ChunkAlg."""
    confs = [{"S": s, "O": o, "m": m, "M": x} for s in range(1, smax + 1) for o in range(smax) for m in range(4)
             for x in (2, smax + 4) if o < min(s, x)]
    for k in range(n + 1):
        for w in itertools.product("a \n", repeat=k):
            t = "".join(chr(97 + i) if c == "a" else c for i, c in enumerate(w))
            for c in confs:
                for kind in ("fixed", "semantic", "sliding"):
                    yield kind, t, c


def p20(ck):
    ck.model("ChunkAlg", ALG % (ck.n(6, 8), ck.n(4, 5), "TRUE"), workers=6)
    ck.refuted("ChunkAlg", ALG % (4, 4, "FALSE"), workers=2)
    cases = list(small_cases(ck.n(6, 7), 4))
    cases = ck.rng.sample(cases, ck.n(12000, 120000))
    groups = [cases[i:i + 400] for i in range(0, len(cases), 400)]
    ck.validate("TrChunk", core.pmap(lambda g: [{"op": "reset"}] + [D.chunk(*x) for x in g], groups), "small texts of the model")
    for f, n, name in ((D.random_chunks, ck.n(500, 12000), "random texts"), (D.big, ck.n(16, 200), "long texts"),
                       (D.parsed, ck.n(120, 2500), "parsers")):
        seeds = [ck.rng.random() for _ in range(n)]
        ck.validate("TrChunk", core.pmap(lambda s: f(random.Random(s)), seeds), name, chunk=1000)

"""Checks of text cleaning (modules Clean, CleanAlg)."""
import itertools
import random

import core
import drv_clean as D

ALG = """INIT Init
NEXT Next
CONSTANT N = %d
INVARIANT Guarantees
"""


def p21(ck):
    ck.model("CleanAlg", ALG % ck.n(2, 3), workers=6)
    confs = [dict(zip(("html", "uni", "special", "ws", "extra", "lower", "stop"), v), minw=1, maxw=m, stopwords=[D.seq(w) for w in D.STOPS])
             for v in itertools.product((False, True), (False, True), ("off", "default"), *[(False, True)] * 4) for m in (2, 50)]
    cases = [(T, c) for k in range(4) for T in itertools.product(D.SMALL, repeat=k) for c in confs]
    cases = [x for x in ck.rng.sample(cases, ck.n(10000, 150000))
             if not any(a in D.COMBINING and b in D.COMBINING for a, b in zip(x[0], x[0][1:]))]
    groups = [cases[i:i + 400] for i in range(0, len(cases), 400)]
    seed = ck.rng.random()
    ck.validate("TrClean", core.pmap(lambda g: D.small(g, random.Random(seed)), groups), "small texts of the model")
    seeds = [ck.rng.random() for _ in range(ck.n(900, 20000))]
    ck.validate("TrClean", core.pmap(lambda s: D.random_clean(random.Random(s)), seeds), "random texts", chunk=1500)

"""Checks of the quantizers (modules Quant, QuantAlg, QuantGen)."""
import random

import core
import drv_quant as D

ALG = """INIT Init
NEXT Next
CONSTANTS MaxV=%d MaxB=%d MaxTotal=%d
INVARIANTS ScalarDesign Sharp SaqDesign
"""
GEN = "INIT Init\nNEXT Next\nINVARIANT TypeOK\n"


def jobs(ck, f, n):
    return core.pmap(lambda s: f(random.Random(s)), [ck.rng.random() for _ in range(n)])


def run(ck, kinds, accept=None):
    ck.model("QuantAlg", ALG % ((7, 6, 12) if not ck.thorough else (12, 8, 24)), workers=4)
    g = ck.edges("QuantGen", GEN, env={"EMIT": "1"})
    for kind in kinds:
        tours = list(g.tours(ck.rng, 60))
        n = ck.n(2, 20)
        seeds = [(t, ck.rng.random()) for t in tours for _ in range(n)]
        ck.validate("TrQuant", core.pmap(lambda j: D.replay(kind, random.Random(j[1]), j[0]), seeds),
                    "%s: model behaviours" % kind, accept)
        ck.validate("TrQuant", jobs(ck, lambda r: D.random_history(kind, r, 40), ck.n(60, 600)),
                    "%s: random histories" % kind, accept)
    if "product" in kinds:
        ck.validate("TrQuant", core.pmap(
            lambda j: D.random_history("product", random.Random(j[1]), 8, big=j[0]),
            [(k, ck.rng.random()) for k in ck.n((256, 257, 258), (255, 256, 257, 258, 290) * 5)]),
                    "product: large codebooks", accept)


    if "saq" in kinds:
        ck.validate("TrQuant", jobs(ck, lambda r: D.searches(r, 30), ck.n(40, 400)), "saq: searches", accept)
        ck.validate("TrQuant", core.pmap(
            lambda j: D.random_history("saq", random.Random(j[1]), 5, big=j[0]),
            [(k, ck.rng.random()) for k in ck.n((1003, 1150), (999, 1000, 1001, 1200, 2010) * 3)]),
                    "saq: large stores", accept)


def p18(ck):
    run(ck, ["scalar", "product"])


def p19(ck):
    run(ck, ["saq"])

"""Checks of the similarity functions (modules Similarity, SimilarityAlg)."""
import random

import core
import drv_similarity as D

ALG = """INIT Init
NEXT Next
CONSTANTS Dim = %d Range = %d Width = %d Triples = %s
INVARIANTS %s
"""
LAWS = "Symmetric Reflexive CauchySchwarz Triangle Order Moved Polar Unit"


def p31(ck):
    ck.model("SimilarityAlg", ALG % (2, ck.n(2, 3), 0, "TRUE", LAWS + " Exact"), env={"EMIT": "0"}, workers=6)
    ck.refuted("SimilarityAlg", ALG % (2, 2, 8, "FALSE", "Exact"), env={"EMIT": "0"})
    pairs = []
    for dim, r in ((1, 3), (2, 2), (3, 1)):
        out = ck.model("SimilarityAlg", ALG % (dim, r, 0, "FALSE", LAWS), env={"EMIT": "1"}, workers=1)
        pairs += core.lines_of(out, "@@P ")
    jobs = [(p, ck.rng.random()) for p in pairs for _ in range(ck.n(1, 12))]
    ck.validate("TrSimilarity", core.pmap(lambda j: D.pair_run(random.Random(j[1]), *j[0]), jobs), "all small pairs")
    seeds = [ck.rng.random() for _ in range(ck.n(1000, 20000))]
    ck.validate("TrSimilarity", core.pmap(lambda s: D.random_run(random.Random(s)), seeds), "random vectors")

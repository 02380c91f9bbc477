"""Checks of the embedding processor (modules Embed, EmbedGen)."""
import random

import core
import drv_embed as D

GEN = """INIT Init
NEXT Next
CONSTANTS Copies = %s Key = "%s" Caching = %s
INVARIANTS Exact CacheExact
"""


def p24(ck):
    ck.model("EmbedGen", GEN % ("TRUE", "full", "FALSE"), env={"EMIT": "0"})
    ck.refuted("EmbedGen", GEN % ("FALSE", "full", "TRUE"), env={"EMIT": "0"})
    ck.refuted("EmbedGen", GEN % ("TRUE", "short", "TRUE"), env={"EMIT": "0"})
    g = ck.edges("EmbedGen", GEN % ("TRUE", "full", "TRUE"), env={"EMIT": "1"})
    jobs = [(t, ck.rng.random()) for t in g.tours(ck.rng, 60) for _ in range(ck.n(8, 80))]
    ck.validate("TrEmbed", core.pmap(lambda j: D.replay(random.Random(j[1]), j[0]), jobs), "all transitions")
    seeds = [ck.rng.random() for _ in range(ck.n(500, 12000))]
    ck.validate("TrEmbed", core.pmap(lambda s: D.random_run(random.Random(s)), seeds), "random histories")

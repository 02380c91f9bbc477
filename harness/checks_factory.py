"""Checks of the factory functions (modules Factory, FactoryGen)."""
import random

import core
import drv_factory as D

GEN = """INIT Init
NEXT Next
CONSTANT Copies = %s
INVARIANT Published
"""


def p29(ck):
    g = ck.edges("FactoryGen", GEN % "TRUE", env={"EMIT": "1"})
    ck.refuted("FactoryGen", GEN % "FALSE", env={"EMIT": "0"})
    jobs = [(t, ck.rng.random()) for t in g.tours(ck.rng, 40) for _ in range(ck.n(12, 100))]
    ck.validate("TrFactory", core.pmap(lambda j: D.replay(random.Random(j[1]), j[0]), jobs), "shared configurations")
    seeds = [ck.rng.random() for _ in range(ck.n(220, 4000))]
    ck.validate("TrFactory", core.pmap(lambda s: D.random_run(random.Random(s)), seeds), "requests")

"""Checks of the parser registry (modules Registry, RegistryGen)."""
import random

import core
import drv_registry as D

GEN = """INIT Init
NEXT Next
CONSTANTS Names = {%s} Classes = {%s}
INVARIANT Sound
PROPERTY Local
VIEW View
"""


def q(xs):
    return ", ".join('"%s"' % x for x in xs)


def p23(ck):
    for names, cl in ((["text", "pdf", "x"], ["A", "D", "broken"]), (["text", "x", "z"], ["A", "B"])):
        g = ck.edges("RegistryGen", GEN % (q(names), q(cl)), env={"EMIT": "1"})
        jobs = [(t, ck.rng.random()) for t in g.tours(ck.rng, 60)]
        ck.validate("TrRegistry", core.pmap(lambda j: D.replay(random.Random(j[1]), names, j[0]), jobs), "all transitions " + names[1])
    if ck.thorough:
        ck.model("RegistryGen", GEN % (q(["text", "pdf", "office", "x", "z"]), q(["A", "D", "B"])), env={"EMIT": "0"}, workers=8)
    seeds = [ck.rng.random() for _ in range(ck.n(500, 12000))]
    ck.validate("TrRegistry", core.pmap(lambda s: D.random_run(random.Random(s)), seeds), "random histories")

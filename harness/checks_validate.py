"""Checks of the validators (modules Validate, ValidateGen)."""
import random

import core
import drv_validate as D

GEN = """INIT Init
NEXT Next
CONSTANT MaxLen = %d
INVARIANTS Batchwise Weaker Safe
"""


def p32(ck):
    out = ck.model("ValidateGen", GEN % 3, env={"EMIT": "1"}, workers=1)
    pairs = core.lines_of(out, "@@I ")
    if ck.thorough:
        ck.model("ValidateGen", GEN % 5, env={"EMIT": "0"}, workers=6)
    ck.rng.shuffle(pairs)
    jobs = [(pairs[i:i + 40], ck.rng.random()) for i in range(0, len(pairs) if ck.thorough else 8000, 40)]
    ck.validate("TrValidate", core.pmap(lambda j: D.given(random.Random(j[1]), j[0]), jobs), "small arrays")
    seeds = [ck.rng.random() for _ in range(ck.n(800, 20000))]
    ck.validate("TrValidate", core.pmap(lambda s: D.random_run(random.Random(s)), seeds), "random inputs")

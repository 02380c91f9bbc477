"""Checks of the processing pipeline (modules Pipeline, PipeAlg)."""
import random

import core
import drv_pipeline as D

ALG = """INIT Init
NEXT Next
CONSTANTS N = %d Isolate = %s Fresh = %s Whole = %s
INVARIANTS Isolated Lined
"""


def p22(ck):
    ck.model("PipeAlg", ALG % (ck.n(2, 4), "TRUE", "TRUE", "TRUE"), workers=6)
    for v in (("FALSE", "TRUE", "TRUE"), ("TRUE", "FALSE", "TRUE"), ("TRUE", "TRUE", "FALSE")):
        ck.refuted("PipeAlg", ALG % ((2,) + v), workers=2)
    seeds = [ck.rng.random() for _ in range(ck.n(450, 9000))]
    ck.validate("TrPipeline", core.pmap(lambda s: D.random_run(random.Random(s)), seeds), "random histories", chunk=1500)

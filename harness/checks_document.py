"""Checks of what parsers extract and report (modules Document, DocumentGen)."""
import random

import core
import drv_document as D

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxChars = %d
  MaxPages = %d
  Skips = %s
INVARIANTS Reads Lengths Lines
"""


def p35(ck):
    out = ck.model("DocumentGen", GEN % (4, 3, "TRUE"), env={"EMIT": "1"}, workers=1)
    ck.refuted("DocumentGen", GEN % (0, 2, "FALSE"), env={"EMIT": "0"})
    docs = core.lines_of(out, "@@I ")
    if ck.thorough:
        ck.model("DocumentGen", GEN % (7, 5, "TRUE"), env={"EMIT": "0"}, workers=6)
        docs = docs * 4
    ck.rng.shuffle(docs)
    jobs = [(docs[i:i + 25], ck.rng.random()) for i in range(0, len(docs), 25)]
    ck.validate("TrDocument", core.pmap(lambda j: D.small(random.Random(j[1]), j[0]), jobs), "small documents")
    seeds = [ck.rng.random() for _ in range(ck.n(160, 4000))]
    ck.validate("TrDocument", core.pmap(lambda s: D.history(random.Random(s)), seeds), "documents", chunk=250)

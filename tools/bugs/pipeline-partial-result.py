PROPERTY='P22'
NEEDS='a document whose processing fails after an earlier one in the same batch succeeded'
BREAKS='the result of a failing document is the last successful result with the error added to it, so the earlier result is changed'
EDITS=[('src/valori/processors/pipeline.py',"""                error_result = {
                    "error": str(e),
""","""                error_result = results[-1] if results else {}
                error_result.update({
                    "error": str(e),
"""),('src/valori/processors/pipeline.py',"""                        "error_message": str(e),
                    },
                }
""","""                        "error_message": str(e),
                    },
                })
""")]
DEMO='''
import os, sys, tempfile
from valori.processors.pipeline import ProcessingPipeline
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.txt")
    open(f, "w").write("hello world")
    p = ProcessingPipeline({"parsers": {"text": {}}}); p.initialize()
    r = p.batch_process_documents([f, os.path.join(d, "missing.txt")])
    sys.exit("error" in r[0] or r[1].get("text") is not None)
'''

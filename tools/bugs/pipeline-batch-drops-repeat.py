PROPERTY='P22'
NEEDS='a batch that names the same file twice'
BREAKS='a file that was already processed in the batch is skipped, so results no longer line up with the paths'
EDITS=[('src/valori/processors/pipeline.py',"""        for file_path in file_paths:
            try:
""","""        for file_path in dict.fromkeys(file_paths):
            try:
""")]
DEMO='''
import os, sys, tempfile
from valori.processors.pipeline import ProcessingPipeline
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.txt")
    open(f, "w").write("hello world")
    p = ProcessingPipeline({"parsers": {"text": {}}}); p.initialize()
    sys.exit(len(p.batch_process_documents([f, f])) != 2)
'''

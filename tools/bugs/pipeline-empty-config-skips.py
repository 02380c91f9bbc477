PROPERTY='P22'
NEEDS='a stage configured with an empty dictionary (all defaults)'
BREAKS='a stage whose configuration is empty is left out of the pipeline'
EDITS=[('src/valori/processors/pipeline.py',"""            if "cleaning" in processor_configs:
""","""            if processor_configs.get("cleaning"):
"""),('src/valori/processors/pipeline.py',"""            if "chunking" in processor_configs:
""","""            if processor_configs.get("chunking"):
""")]
DEMO='''
import sys
from valori.processors.pipeline import ProcessingPipeline
p = ProcessingPipeline({"processors": {"cleaning": {}, "chunking": {}}}); p.initialize()
sys.exit(p.process_text("a   b <i>c</i>")["text"] != "a b c")
'''

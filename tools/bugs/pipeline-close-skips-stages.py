PROPERTY='P22'
NEEDS='a pipeline that is closed while one of its stages is still held'
BREAKS='closing a pipeline forgets its stages without closing them, so a stage that is still held goes on working'
EDITS=[('src/valori/processors/pipeline.py','''        for processor in self.processors:
            processor.close()

''','''        while self.processors:
            self.processors.pop()

''')]
DEMO='''
import sys
from valori.processors import ProcessingPipeline
p = ProcessingPipeline({"parsers": {}, "processors": {"cleaning": {}, "chunking": {}}})
p.initialize()
stages = list(p.processors)
p.close()
alive = 0
for s in stages:
    try:
        s.process({"text": "Some text", "metadata": {}})
        alive += 1
    except Exception:
        pass
sys.exit(alive > 0 or not stages)
'''

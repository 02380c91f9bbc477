PROPERTY='P33'
NEEDS='a measured block that gives memory back'
BREAKS='a block that frees memory is recorded with no change of memory'
EDITS=[('src/valori/utils/debugging.py','''            memory_delta = end_memory - start_memory
''','''            memory_delta = max(end_memory, start_memory) - start_memory
''')]
DEMO='''
import sys
from valori.utils.debugging import PerformanceProfiler


class Profiler(PerformanceProfiler):
    values = [50.0, 20.0]

    def _get_memory_usage(self):
        return self.values.pop(0)


p = Profiler()
with p.measure("x"):
    pass
sys.exit(p.get_summary()["x"]["memory"]["total"] != -30.0)
'''

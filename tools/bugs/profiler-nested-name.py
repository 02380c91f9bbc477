PROPERTY='P33'
NEEDS='a measured block inside another one of the same name'
BREAKS='the start times are kept by name, so the inner block of a name overwrites the start of the outer one, which is recorded too short'
EDITS=[('src/valori/utils/debugging.py','''        start_time = time.time()
        start_memory = self._get_memory_usage()
''','''        self.current_measurements[operation_name] = time.time()
        start_memory = self._get_memory_usage()
'''),('src/valori/utils/debugging.py','''            duration = end_time - start_time
            memory_delta''','''            duration = end_time - self.current_measurements[operation_name]
            memory_delta''')]
DEMO='''
import sys, time
from valori.utils.debugging import PerformanceProfiler
p = PerformanceProfiler()
with p.measure("a"):
    time.sleep(0.2)
    with p.measure("a"):
        time.sleep(0.01)
s = p.get_summary()["a"]
sys.exit(not (s["count"] == 2 and s["duration"]["max"] >= 0.2))
'''

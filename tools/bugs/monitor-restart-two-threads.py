PROPERTY='P34'
NEEDS='starting the monitor again shortly after it was stopped, while its thread still sleeps'
BREAKS='stopping does not wait for the sampling thread, which finds monitoring switched on again when it wakes up, so two threads sample'
EDITS=[('src/valori/utils/batch_manager.py','''            self.monitor_thread.join()
''','''            self.monitor_thread.join(timeout=0.05)
''')]
DEMO='''
import sys, time, threading
from valori.utils.batch_manager import ResourceMonitor
n0 = threading.active_count()
m = ResourceMonitor()
m.start_monitoring(0.4)
time.sleep(0.1)
m.stop_monitoring()
m.start_monitoring(0.4)
time.sleep(0.6)
n = threading.active_count() - n0
m.stop_monitoring()
print(n)
sys.exit(n != 1)
'''

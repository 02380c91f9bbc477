PROPERTY='P15'
NEEDS='an update of a record that is not in memory, between the moment another thread has read it from disk and the moment that thread puts it into memory'
BREAKS='the disk is read without the lock, so an outdated record is promoted into memory and served from then on'
EDITS=[('src/valori/storage/hybrid.py','''                # Try memory first
                result = self.memory_storage.retrieve_vector(id)
                if result is not None:
                    return result

                # Fall back to disk
                result = self.disk_storage.retrieve_vector(id)
                if result is not None:
''','''                # Try memory first
                result = self.memory_storage.retrieve_vector(id)
                if result is not None:
                    return result

            # Fall back to disk; other threads need not wait for it
            result = self.disk_storage.retrieve_vector(id)

            with self.lock:
                if result is not None:
''')]
DEMO='''
import sys, tempfile, shutil, threading
import numpy as np
from valori.storage import HybridStorage
d = tempfile.mkdtemp()
def new():
    h = HybridStorage({"memory": {}, "disk": {"data_dir": d}, "memory_limit": 5}); h.initialize(); return h
h = new(); h.store_vector("a", np.zeros(2), {"n": 0}); h.close()
h = new()
real = h.disk_storage.retrieve_vector
read, go = threading.Event(), threading.Event()
def slow(id):
    r = real(id)
    read.set(); go.wait(1)
    return r
h.disk_storage.retrieve_vector = slow
t = threading.Thread(target=lambda: h.retrieve_vector("a")); t.start()
read.wait(5)
u = threading.Thread(target=lambda: (h.update_vector("a", np.ones(2), {"n": 1}), go.set())); u.start()
t.join(); u.join()
r = h.retrieve_vector("a")
shutil.rmtree(d)
print(r)
sys.exit(r[1] != {"n": 1})
'''

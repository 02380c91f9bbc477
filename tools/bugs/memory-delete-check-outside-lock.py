PROPERTY='P15'
NEEDS='an update and a delete of the same id racing: the delete runs between the existence check and the write'
BREAKS='update checks for the id before taking the lock, so it can bring back a record that was deleted meanwhile (a phantom)'
EDITS=[('src/valori/storage/memory.py',"""        try:
            with self.lock:
                if id not in self.vectors:
                    return False

""","""        try:
            if id not in self.vectors:
                return False

            with self.lock:
""")]
DEMO='''
import sys, threading
import numpy as np
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.array([1.0]))
s.lock.acquire()                 # somebody is inside the backend
out = []
t = threading.Thread(target=lambda: out.append(s.update_vector("a", np.array([2.0]))))
t.start()
t.join(0.5)                      # the update now waits for the lock
s.delete_vector("a")             # the delete takes effect first
s.lock.release()
t.join()
gone = s.retrieve_vector("a") is None
sys.exit(0 if gone else 1)
'''

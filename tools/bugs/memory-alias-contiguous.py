PROPERTY='P02'
NEEDS='a caller that reuses a C-contiguous array after an update of the memory backend (a strided view would still be copied)'
BREAKS='the updated record shares its memory with the array of the caller'
EDITS=[('src/valori/storage/memory.py',"""                # Update vector
                self.vectors[id] = vector.copy()
""","""                # Update vector
                self.vectors[id] = np.ascontiguousarray(vector)
""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.array([1.0, 2.0]))
v = np.array([3.0, 4.0])
s.update_vector("a", v)
v[:] = 0
sys.exit(0 if s.retrieve_vector("a")[0].tolist() == [3.0, 4.0] else 1)
'''

PROPERTY='P02'
NEEDS='an update of a flat index on any storage, a change of the array afterwards and a search answered from the cache'
BREAKS='the cache of the flat index shares its memory with the array the caller passed to update'
EDITS=[('src/valori/indices/flat.py',"""            # Update cache
            self.vector_cache[id] = vector.copy()
""","""            # Update cache
            self.vector_cache[id] = np.asarray(vector)
""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
s = MemoryStorage({}); s.initialize()
ix = FlatIndex({"metric": "euclidean"}); ix.initialize(s)
ids = ix.insert(np.array([[1.0, 2.0]]))
v = np.array([3.0, 4.0])
ix.update(ids[0], v)
v[:] = 0
sys.exit(0 if ix.search(np.array([3.0, 4.0]), 1)[0]["distance"] == 0 else 1)
'''

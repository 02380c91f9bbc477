PROPERTY='P04'
NEEDS='a record with metadata that was evicted and promoted again when the memory was full, then read once more'
BREAKS='a promotion that needs an eviction keeps only the vector: the second read lacks the metadata'
EDITS=[('src/valori/storage/hybrid.py',"""                        # Evict and promote
                        self._evict_from_memory()
                        self.memory_storage.store_vector(id, vector, metadata)
""","""                        # Evict and promote
                        self._evict_from_memory()
                        self.memory_storage.store_vector(id, vector)
""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import HybridStorage
with tempfile.TemporaryDirectory() as d:
    s = HybridStorage({"memory": {}, "disk": {"data_dir": d}, "memory_limit": 1}); s.initialize()
    s.store_vector("a", np.array([1.0]), {"v": 1})
    s.store_vector("b", np.array([2.0]), {"v": 2})
    r = [s.retrieve_vector("a")[1] for _ in range(2)]
    sys.exit(0 if r == [{"v": 1}] * 2 else 1)
'''

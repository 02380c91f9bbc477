PROPERTY='P04'
NEEDS='an update of a record that is in memory while the memory layer is full'
BREAKS='the memory copy is not updated when the layer is full, so the next retrieve serves the old vector'
EDITS=[('src/valori/storage/hybrid.py',"""                if disk_success:
                    self.memory_storage.update_vector(id, vector, metadata)
""","""                if disk_success:
                    memory_stats = self.memory_storage.get_stats()
                    if memory_stats.get("vector_count", 0) < self.memory_limit:
                        self.memory_storage.update_vector(id, vector, metadata)
""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import HybridStorage
with tempfile.TemporaryDirectory() as d:
    s = HybridStorage({"memory_limit": 2, "disk": {"data_dir": d}})
    s.initialize()
    s.store_vector("a", np.array([1.0]), {"v": 1})
    s.store_vector("b", np.array([2.0]), {"v": 2})
    s.update_vector("b", np.array([3.0]), {"v": 3})
    v, m = s.retrieve_vector("b")
    sys.exit(0 if v[0] == 3.0 and m == {"v": 3} else 1)
'''

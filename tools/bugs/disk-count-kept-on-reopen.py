PROPERTY='P12'
NEEDS='two backends on one directory one after the other in the same process: the first is reopened after the other one changed the directory'
BREAKS='a reopened disk backend keeps the count of its earlier life if that was not zero'
EDITS=[('src/valori/storage/disk.py',"""            # Count existing vectors
            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
            self._initialized = True
""","""            # Count existing vectors
            if not self._vector_count:
                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
            self._initialized = True
""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import DiskStorage
with tempfile.TemporaryDirectory() as d:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("a", np.array([1.0])); s.close()
    t = DiskStorage({"data_dir": d}); t.initialize()
    t.store_vector("b", np.array([1.0])); t.close()
    s.initialize()
    sys.exit(0 if s.get_stats()["vector_count"] == 2 else 1)
'''

PROPERTY='P05'
NEEDS='a record whose id contains ".tmp" and a restart'
BREAKS='opening the backend removes everything that looks like a leftover, records with ".tmp" in their id among them'
EDITS=[('src/valori/storage/disk.py',"""            # Count existing vectors
            self._vector_count""","""            # Remove what interrupted writes left behind, count existing vectors
            for leftover in self.vectors_dir.glob("*.tmp*"):
                leftover.unlink()
            self._vector_count""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import DiskStorage
with tempfile.TemporaryDirectory() as d:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("a.tmp", np.ones(2), {"k": 1}); s.close()
    s = DiskStorage({"data_dir": d}); s.initialize()
    sys.exit(s.retrieve_vector("a.tmp") is None)
'''

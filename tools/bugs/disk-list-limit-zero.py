PROPERTY='P01'
NEEDS='listing with limit 0'
BREAKS='list_vectors(limit=0) returns every id instead of none'
EDITS=[('src/valori/storage/disk.py',"""            if limit is not None:
                vector_ids""","""            if limit:
                vector_ids""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import DiskStorage
with tempfile.TemporaryDirectory() as d:
    s = DiskStorage({"data_dir": d})
    s.initialize()
    s.store_vector("a", np.array([1.0]))
    sys.exit(0 if s.list_vectors(limit=0) == [] and s.list_vectors(limit=1) == ["a"] else 1)
'''

PROPERTY='P05'
NEEDS='a restart after records were deleted whose ids sort before others: reopened stores list ids of other files'
BREAKS='listing is limited before temporary and foreign files are left out'
EDITS=[('src/valori/storage/disk.py',"""            if limit is not None:
                vector_ids = vector_ids[:limit]
""","""            if limit is not None:
                vector_ids = [
                    i for i in vector_ids[:limit] if not i.startswith(".")
                ]
""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import DiskStorage
with tempfile.TemporaryDirectory() as d:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector(".a", np.ones(2), {"k": 1})
    s.close(); s.initialize()
    sys.exit(s.list_vectors(limit=5) != [".a"])
'''

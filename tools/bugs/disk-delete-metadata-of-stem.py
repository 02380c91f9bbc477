PROPERTY='P03'
NEEDS='two ids where one is the other with its last dot part cut off, the shorter one with metadata, and a delete of the longer one'
BREAKS='deleting "doc.1" deletes the metadata of "doc" and leaves its own behind'
EDITS=[('src/valori/storage/disk.py',"""            # Delete metadata file
            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
""","""            # Delete metadata file
            metadata_path = (self.metadata_dir / safe_id).with_suffix(".pkl")
""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.storage import DiskStorage
with tempfile.TemporaryDirectory() as d:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("doc", np.array([1.0]), {"n": 0})
    s.store_vector("doc.1", np.array([2.0]), {"n": 1})
    s.delete_vector("doc.1")
    sys.exit(0 if s.retrieve_vector("doc")[1] == {"n": 0} else 1)
'''

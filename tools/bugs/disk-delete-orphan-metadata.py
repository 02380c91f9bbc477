PROPERTY='P06'
NEEDS='a crash (or I/O error) between the two unlinks of a delete'
BREAKS='the metadata file is removed before the vector file: a crash in between leaves a readable record with its metadata lost'
EDITS=[('src/valori/storage/disk.py',"""            # Delete vector file
            vector_path = self.vectors_dir / f"{safe_id}.npy"
            vector_deleted = False
            if vector_path.exists():
                vector_path.unlink()
                vector_deleted = True

            # Delete metadata file
            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
            if metadata_path.exists():
                metadata_path.unlink()

""","""            # Delete metadata file
            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
            if metadata_path.exists():
                metadata_path.unlink()

            # Delete vector file
            vector_path = self.vectors_dir / f"{safe_id}.npy"
            vector_deleted = False
            if vector_path.exists():
                vector_path.unlink()
                vector_deleted = True

""")]
DEMO='''
import os, pathlib, sys, tempfile
import numpy as np
from valori.storage import DiskStorage
class Crash(BaseException):
    pass
with tempfile.TemporaryDirectory() as d:
    s = DiskStorage({"data_dir": d}); s.initialize()
    bad = 0
    for after in (0, 1):
        s.store_vector("a", np.array([1.0]), {"v": 1})
        n = [0]
        real = pathlib.Path.unlink
        def unlink(self, *a, **k):
            if n[0] >= after:
                raise Crash
            n[0] += 1
            return real(self, *a, **k)
        pathlib.Path.unlink = unlink
        try:
            s.delete_vector("a")
        except Crash:
            pass
        finally:
            pathlib.Path.unlink = real
        t = DiskStorage({"data_dir": d}); t.initialize()
        r = t.retrieve_vector("a")
        bad += r is not None and r[1] != {"v": 1}
    sys.exit(bad)
'''

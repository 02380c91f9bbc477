PROPERTY='P06'
NEEDS='a crash between the two steps of a deletion'
BREAKS='a deletion removes the metadata before the vector, so a crash in between leaves the old vector without its metadata'
EDITS=[('src/valori/storage/disk.py','''            # Delete vector file
            vector_path = self.vectors_dir / f"{safe_id}.npy"
            vector_deleted = False
            if vector_path.exists():
                vector_path.unlink()
                vector_deleted = True

            # Delete metadata file
            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
            if metadata_path.exists():
                metadata_path.unlink()
''','''            # Delete metadata file
            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
            if metadata_path.exists():
                metadata_path.unlink()

            # Delete vector file
            vector_path = self.vectors_dir / f"{safe_id}.npy"
            vector_deleted = False
            if vector_path.exists():
                vector_path.unlink()
                vector_deleted = True
''')]
DEMO='''
import sys, tempfile, shutil, pathlib
import numpy as np
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
s = DiskStorage({"data_dir": d}); s.initialize()
s.store_vector("a", np.ones(2), {"x": 1})
real = pathlib.Path.unlink
n = [0]
def unlink(self, *a, **k):
    n[0] += 1
    if n[0] > 1:
        raise OSError("crash")
    return real(self, *a, **k)
pathlib.Path.unlink = unlink
try:
    s.delete_vector("a")
except Exception:
    pass
pathlib.Path.unlink = real
t = DiskStorage({"data_dir": d}); t.initialize()
r = t.retrieve_vector("a")
shutil.rmtree(d)
print(r)
sys.exit(r is not None and r[1] != {"x": 1})
'''

PROPERTY='P03'
NEEDS='an id that starts with a dot'
BREAKS='records whose id starts with a dot are taken for hidden files and not listed'
EDITS=[('src/valori/storage/disk.py','''            vector_files = list(self.vectors_dir.glob("*.npy"))
            vector_ids''','''            vector_files = [
                f for f in self.vectors_dir.glob("*.npy") if not f.name.startswith(".")
            ]
            vector_ids''')]
DEMO='''
import sys, tempfile, shutil
import numpy as np
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
s = DiskStorage({"data_dir": d}); s.initialize()
s.store_vector(".a", np.ones(2)); s.store_vector("a", np.zeros(2))
l = sorted(s.list_vectors())
shutil.rmtree(d)
print(l)
sys.exit(l != [".a", "a"])
'''

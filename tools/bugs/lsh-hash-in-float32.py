PROPERTY='P26'
NEEDS='double precision vectors beyond the range of single precision'
BREAKS='vectors are hashed in single precision when they are added and in double precision when they are looked up, so a stored vector is not found by itself'
EDITS=[('src/valori/indices/lsh.py','''            hash_codes = self._hash_vector(vector)

            # Add to each''','''            hash_codes = self._hash_vector(np.asarray(vector, dtype=np.float32))

            # Add to each''')]
DEMO='''
import sys
import numpy as np
from valori.indices import LSHIndex
x = LSHIndex({"num_hash_tables": 2, "hash_size": 8, "threshold": 0.0}); x.initialize()
v = np.random.default_rng(0).normal(size=(60, 6)) * 1e40
ids = x.insert(v)
miss = [i for i, w in zip(ids, v) if i not in [str(r["id"]) for r in x.search(w, 60)]]
print(len(miss))
sys.exit(bool(miss))
'''

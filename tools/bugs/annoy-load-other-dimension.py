PROPERTY='P25'
NEEDS='loading a saved index into an index that has held vectors of another dimension'
BREAKS='the dimension saved with the index is ignored if the index already has one, so the loaded trees are read with the wrong dimension'
EDITS=[('src/valori/indices/annoy.py','''                self.dimension = metadata.get("dimension")
''','''                if self.dimension is None:
                    self.dimension = metadata.get("dimension")
''')]
DEMO='''
import os, sys, tempfile
import numpy as np
from valori.indices.annoy import AnnoyIndex
rng = np.random.default_rng(0)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.ann")
    v = rng.normal(size=(6, 4)).astype(np.float32)
    a = AnnoyIndex({"metric": "euclidean", "num_trees": 5})
    a.initialize()
    a.insert(v)
    a.build()
    a.save(f)
    b = AnnoyIndex({"metric": "euclidean", "num_trees": 5})
    b.initialize()
    b.insert(rng.normal(size=(3, 2)).astype(np.float32))
    b.build()
    try:
        b.load(f)
        ok = [r["id"] for r in b.search(v[2], 3)] == [r["id"] for r in a.search(v[2], 3)]
    except Exception as e:
        print(e)
        ok = False
sys.exit(not ok)
'''

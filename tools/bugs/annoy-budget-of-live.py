PROPERTY='P25'
NEEDS='an index from which many vectors were removed since the last build, and a query close to the removed ones'
BREAKS='the search budget is taken from the number of live vectors, but the trees still hold the removed ones, so live vectors are not found'
EDITS=[('src/valori/indices/annoy.py','''            self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
''','''            self.search_k
            if self.search_k > 0
            else self.num_trees * self.get_stats()["num_vectors"]
''')]
DEMO='''
import sys
import numpy as np
from valori.indices.annoy import AnnoyIndex
rng = np.random.default_rng(0)
a = AnnoyIndex({"metric": "euclidean", "num_trees": 2})
a.initialize()
near = rng.normal(size=(400, 3)).astype(np.float32)
far = rng.normal(size=(5, 3)).astype(np.float32) + 50
ids = a.insert(np.concatenate([near, far]))
a.build()
a.delete(ids[:400])
r = a.search(np.zeros(3, dtype=np.float32), 5)
print(len(r))
sys.exit(sorted(str(x["id"]) for x in r) != sorted(ids[400:]))
'''

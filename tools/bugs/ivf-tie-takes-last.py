PROPERTY='P27'
NEEDS='a vector exactly as far from two centroids, and a search with a single probe'
BREAKS='of two equally near clusters a vector is put into the last, while the search probes the first'
EDITS=[('src/valori/indices/ivf.py','''            if distance < min_distance:
''','''            if distance <= min_distance:
''')]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import IVFIndex
s = MemoryStorage({}); s.initialize()
x = IVFIndex({"n_clusters": 2, "n_probes": 1, "metric": "euclidean"}); x.initialize(s)
x.insert(np.array([[0.0, 0.0], [4.0, 0.0]]))
q = np.array([2.0, 0.0])
i = x.insert(q[None])[0]
r = x.search(q, 3)
print(r)
sys.exit(bool(not r or abs(r[0]["distance"]) > 1e-9))
'''

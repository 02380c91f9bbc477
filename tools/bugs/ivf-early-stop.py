PROPERTY='P08'
NEEDS='a trained IVF index that probes several clusters and a k so small that the first clusters alone hold k vectors'
BREAKS='probing stops as soon as k candidates are known, so a nearer vector in a later cluster is missed'
EDITS=[('src/valori/indices/ivf.py',"""            for cluster_id in probe_clusters:
                if cluster_id in self.clusters:
""","""            for cluster_id in probe_clusters:
                if len(candidates) >= k:
                    break
                if cluster_id in self.clusters:
""")]
DEMO='''
import sys
import numpy as np
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"metric": "euclidean", "n_clusters": 4, "n_probes": 4}); i.initialize(s)
r = np.random.RandomState(0)
v = r.randint(-50, 50, (80, 2)).astype(float)
ids = i.insert(v, [{}] * 80)
bad = 0
for n in range(100):
    q = r.randint(-50, 50, 2).astype(float)
    d = i.search(q, 1)[0]["distance"]
    bad += abs(d - np.linalg.norm(v - q, axis=1).min()) > 1e-6
sys.exit(bool(bad))
'''

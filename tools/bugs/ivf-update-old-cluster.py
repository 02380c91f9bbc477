PROPERTY='P27'
NEEDS='a trained index, an update that moves a vector to another cluster, and a search with few probes'
BREAKS='the cluster of an updated vector is chosen from its old value, so single-probe searches for the new value miss it'
EDITS=[('src/valori/indices/ivf.py',"""            # Update cache
            self.vectors_cache[id] = vector.copy()

            # If trained, update cluster assignment
            if self._trained:
                self._update_cluster_assignment(id, vector)
""","""            # If trained, update cluster assignment
            if self._trained:
                self._update_cluster_assignment(
                    id, self.vectors_cache.get(id, vector)
                )

            # Update cache
            self.vectors_cache[id] = vector.copy()
""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import IVFIndex
s = MemoryStorage({}); s.initialize()
ix = IVFIndex({"n_clusters": 2, "n_probes": 1, "metric": "euclidean"}); ix.initialize(s)
ids = ix.insert(np.array([[0.0, 0.0], [0.0, 1.0], [100.0, 0.0], [100.0, 1.0]]))
ix.update(ids[0], np.array([99.0, 5.0]))
r = ix.search(np.array([99.0, 5.0]), 1)
sys.exit(0 if r and r[0]["id"] == ids[0] else 1)
'''

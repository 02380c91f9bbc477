PROPERTY='P17'
NEEDS='two batches inserted at the same time, one of them overtaking the other between two steps of an insertion'
BREAKS='parallel insertion calls the index itself, past the lock of the client, so insertions run into each other'
EDITS=[('src/valori/utils/batch_manager.py','''                batch_ids = client.insert(batch_data["vectors"], batch_data["metadata"])
                return''','''                # One batch is one call, no need to go through the client each time
                insert = getattr(client, "index", client).insert
                batch_ids = insert(batch_data["vectors"], batch_data["metadata"])
                return''')]
DEMO='''
import sys, time
import numpy as np
from valori import VectorDBClient
from valori.storage import MemoryStorage
from valori.indices import LSHIndex
from valori.utils.batch_manager import BatchManager
class Slow(np.ndarray):
    def copy(self, *a):
        time.sleep(0.02 if self.flat[0] > 0 else 0.001)
        return np.array(self)
c = VectorDBClient(MemoryStorage({}), LSHIndex({"num_hash_tables": 3, "hash_size": 4}))
c.initialize()
v = np.random.default_rng(1).normal(size=(16, 4)).view(Slow)
c.insert(v[:1], [{"n": -1}])
ids = BatchManager(batch_size=4, max_workers=4).parallel_batch_insert(c, v, [{"n": i} for i in range(16)], show_progress=False)
bad = 0
for i, vid in enumerate(ids):
    if c.index.metadata[int(vid)] != {"n": i}:
        bad += 1
print(len(ids), bad)
sys.exit(bool(bad or len(ids) != 16))
'''

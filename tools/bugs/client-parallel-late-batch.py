PROPERTY='P17'
NEEDS='more batches than workers, so that a batch is still waiting for a thread while the later ones are being submitted'
BREAKS='a waiting task takes the batch that was submitted last, so some batches are inserted twice and others never'
EDITS=[('src/valori/utils/batch_manager.py','''                    executor.submit(process_batch, batch): batch for batch in batches
''','''                    executor.submit(lambda: process_batch(batch)): batch
                    for batch in batches
''')]
DEMO='''
import sys, time
import numpy as np
from valori import VectorDBClient
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
from valori.utils.batch_manager import BatchManager
class Slow(VectorDBClient):
    def insert(self, vectors, metadata=None):
        time.sleep(0.02)
        return super().insert(vectors, metadata)
c = Slow(MemoryStorage({}), FlatIndex({"metric": "euclidean"}))
c.initialize()
v = np.arange(24, dtype=np.float32).reshape(12, 2)
ids = BatchManager(batch_size=1, max_workers=2).parallel_batch_insert(c, v, [{"n": i} for i in range(12)], show_progress=False)
got = [c.storage_backend.retrieve_vector(i)[1]["n"] for i in ids]
print(got)
sys.exit(got != list(range(12)))
'''

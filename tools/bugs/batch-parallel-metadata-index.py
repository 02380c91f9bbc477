PROPERTY='P16'
NEEDS='a parallel batch insert with at least three batches and distinct metadata'
BREAKS='the metadata of a batch are taken with the batch number as the offset, so later batches get the metadata of other items'
EDITS=[('src/valori/utils/batch_manager.py',"""                    "vectors": vectors[i : i + self.batch_size],
                    "metadata": metadata[i : i + self.batch_size],
                    "batch_id": i // self.batch_size,
""","""                    "vectors": vectors[i : i + self.batch_size],
                    "metadata": metadata[len(batches) : len(batches) + self.batch_size],
                    "batch_id": i // self.batch_size,
""")]
DEMO='''
import sys
import numpy as np
from valori.utils.batch_manager import BatchManager
class Client:
    def __init__(self):
        self.seen = {}
    def insert(self, vectors, metadata):
        for v, m in zip(vectors, metadata):
            self.seen[v[0]] = m["n"]
        return [str(v[0]) for v in vectors]
c = Client()
BatchManager(batch_size=2, max_workers=2).parallel_batch_insert(
    c, np.arange(12.0).reshape(6, 2), [{"n": 2.0 * i} for i in range(6)], show_progress=False)
sys.exit(0 if len(c.seen) == 6 and all(k == v for k, v in c.seen.items()) else 1)
'''

PROPERTY='P16'
NEEDS='a parallel batch insert with a failing batch other than a full one (the last, shorter batch)'
BREAKS='a failing batch is counted with the batch size instead of the number of its items'
EDITS=[('src/valori/utils/batch_manager.py',"""                            self._stats.get("failed_items", 0) or 0
                        ) + len(batches[batch_id]["vectors"])
""","""                            self._stats.get("failed_items", 0) or 0
                        ) + self.batch_size
""")]
DEMO='''
import sys
import numpy as np
from valori.utils.batch_manager import BatchManager
class Client:
    def insert(self, vectors, metadata):
        if len(vectors) < 4:
            raise ValueError("no")
        return [str(v[0]) for v in vectors]
m = BatchManager(batch_size=4, max_workers=2)
m.parallel_batch_insert(Client(), np.arange(10.0).reshape(5, 2), [{}] * 5, show_progress=False)
s = m.get_stats()
sys.exit(0 if (s["processed_items"], s["failed_items"]) == (4, 1) else 1)
'''

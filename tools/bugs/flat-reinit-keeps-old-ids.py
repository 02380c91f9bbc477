PROPERTY='P12'
NEEDS='a flat index that is initialized a second time on a storage that lost or gained records meanwhile'
BREAKS='reinitializing appends the stored ids to those of the earlier life instead of replacing them'
EDITS=[('src/valori/indices/flat.py',"""            self.vector_ids = existing_ids
""","""            self.vector_ids.extend(
                i for i in existing_ids if i not in self.vector_ids
            )
""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
s = MemoryStorage({}); s.initialize()
ix = FlatIndex({"metric": "euclidean"}); ix.initialize(s)
ids = ix.insert(np.array([[1.0, 2.0], [3.0, 4.0]]))
s.delete_vector(ids[0])
ix.initialize(s)
sys.exit(0 if ix.get_stats()["vector_count"] == 1 else 1)
'''

PROPERTY='P10'
NEEDS='a storage backend that fails while deleting'
BREAKS='the vector leaves the graph before the storage backend deletes it, so after a failing deletion the storage holds a vector the index does not serve'
EDITS=[('src/valori/indices/hnsw.py','''                # Remove from storage
                if not sb.delete_vector(vector_id):
                    success = False

                # Remove from graph
                self._remove_vector_internal(vector_id)
''','''                # Remove from graph
                self._remove_vector_internal(vector_id)

                # Remove from storage
                if not sb.delete_vector(vector_id):
                    success = False
''')]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import HNSWIndex
class S(MemoryStorage):
    fail = False
    def delete_vector(self, id):
        if self.fail:
            raise OSError("disk")
        return super().delete_vector(id)
s = S({}); s.initialize()
x = HNSWIndex({"metric": "euclidean"}); x.initialize(s)
ids = x.insert(np.eye(3))
s.fail = True
try:
    x.delete([ids[1]])
except Exception:
    pass
s.fail = False
got = {r["id"] for r in x.search(np.ones(3), 3)}
sys.exit(got != set(s.list_vectors()))
'''

PROPERTY='P10'
NEEDS='an update whose storage backend fails (or an unknown id), followed by a search'
BREAKS='the flat index changes its cache before the storage accepted the update, so a failed update is searched'
EDITS=[('src/valori/indices/flat.py',"""            if not sb.update_vector(id, vector, metadata):
                return False

            # Update cache
            self.vector_cache[id] = vector.copy()

            return True
""","""            # Update cache
            self.vector_cache[id] = vector.copy()

            return sb.update_vector(id, vector, metadata)
""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
class Failing(MemoryStorage):
    fail = False
    def update_vector(self, *a, **k):
        if self.fail:
            raise OSError("no space left on device")
        return super().update_vector(*a, **k)
s = Failing({}); s.initialize()
ix = FlatIndex({"metric": "euclidean"}); ix.initialize(s)
ids = ix.insert(np.array([[1.0, 2.0]]))
s.fail = True
try:
    ix.update(ids[0], np.array([5.0, 5.0]))
except Exception:
    pass
sys.exit(0 if ix.search(np.array([1.0, 2.0]), 1)[0]["distance"] == 0 else 1)
'''

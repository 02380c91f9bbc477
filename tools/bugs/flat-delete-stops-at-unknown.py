PROPERTY='P09'
NEEDS='a delete of several ids in which an unknown id comes before a known one'
BREAKS='delete stops at the first unknown id, so later ids stay in the index'
EDITS=[('src/valori/indices/flat.py',"""                if not sb.delete_vector(vector_id):
                    success = False
""","""                if not sb.delete_vector(vector_id):
                    success = False
                    if vector_id not in self.vector_ids:
                        break
""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
s = MemoryStorage({}); s.initialize()
ix = FlatIndex({"metric": "euclidean"}); ix.initialize(s)
ids = ix.insert(np.array([[1.0, 2.0]]))
ok = ix.delete(["unknown", ids[0]])
sys.exit(0 if ok is False and s.list_vectors() == [] else 1)
'''

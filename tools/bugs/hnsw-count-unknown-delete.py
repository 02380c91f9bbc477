PROPERTY='P28'
NEEDS='deleting an id that is not in the index'
BREAKS='the reported number of vectors goes down for ids that are not there'
EDITS=[('src/valori/indices/hnsw.py','''            del self.vectors[vector_id]
            self._vector_count = len(self.vectors)
''','''            del self.vectors[vector_id]
        self._vector_count -= 1
''')]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import HNSWIndex
s = MemoryStorage({}); s.initialize()
x = HNSWIndex({"metric": "euclidean"}); x.initialize(s)
ids = x.insert(np.eye(3))
x.delete([ids[0], "nobody", ids[0]])
print(x.get_stats()["vector_count"])
sys.exit(x.get_stats()["vector_count"] != 2)
'''

PROPERTY='P28'
NEEDS='a node drawn for the topmost level 10 (probability 1/1024) that is deleted'
BREAKS='deletion leaves the node in the topmost level of the graph; the next search starts from a vector that is gone and fails'
EDITS=[('src/valori/indices/hnsw.py',"""        for level in self.levels:
            if vector_id in level:
""","""        for level in self.levels[:10]:
            if vector_id in level:
""")]
DEMO='''
import sys, random
import numpy as np
from valori.storage import MemoryStorage
from valori.indices import HNSWIndex
s = MemoryStorage({}); s.initialize()
ix = HNSWIndex({"metric": "euclidean"}); ix.initialize(s)
old = random.random
random.random = lambda: 0.1
a = ix.insert(np.array([[1.0, 2.0]]))
random.random = old
b = ix.insert(np.array([[3.0, 4.0], [5.0, 6.0]]))
ix.delete(a)
try:
    r = ix.search(np.array([3.0, 4.0]), 2)
except Exception as e:
    print(e); sys.exit(1)
sys.exit(0 if [x["id"] for x in r] == b else 1)
'''

PROPERTY='P07'
NEEDS='vectors with a norm below one millionth and the cosine metric'
BREAKS='small vectors count as zero vectors: their cosine distance is reported as 1'
EDITS=[('src/valori/indices/hnsw.py',"""            if norm1 == 0 or norm2 == 0:
""","""            if norm1 < 1e-6 or norm2 < 1e-6:
""")]
DEMO='''
import sys
import numpy as np
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = HNSWIndex({"metric": "cosine"}); i.initialize(s)
i.insert(np.array([[1e-8, 0.0], [0.0, 1.0]]), [{}, {}])
sys.exit(int(i.search(np.array([1.0, 0.0]), 1)[0]["distance"] > 0.1))
'''

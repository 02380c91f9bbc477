PROPERTY='P08'
NEEDS='double precision vectors that differ only beyond single precision'
BREAKS='distances are computed in single precision, so the nearest vector is not found'
EDITS=[('src/valori/indices/flat.py',"""            vectors_array = np.array(vectors)
""","""            vectors_array = np.array(vectors, dtype=np.float32)
""")]
DEMO='''
import sys
import numpy as np
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = FlatIndex({"metric": "euclidean"}); i.initialize(s)
b = 2.0 ** 24
ids = i.insert(np.array([[b, 0.0], [b + 1, 0.0], [b + 3, 0.0]]), [{}, {}, {}])
bad = 0
for n in range(3):
    bad += i.search(np.array([[b, 0.0], [b + 1, 0.0], [b + 3, 0.0]][n]), 1)[0]["id"] != ids[n]
sys.exit(bool(bad))
'''

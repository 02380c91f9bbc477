PROPERTY='P11'
NEEDS='an LSH or Annoy index and a vector with minus infinity among finite entries'
BREAKS='only the largest entry of a vector is tested for being finite, so minus infinity gets into the index'
EDITS=[('src/valori/utils/validation.py','''    if np.any(np.isnan(vector)) or np.any(np.isinf(vector)):
''','''    if not np.isfinite(np.max(vector)):
''')]
DEMO='''
import sys
import numpy as np
from valori.indices import LSHIndex
from valori.storage import MemoryStorage
st = MemoryStorage({}); st.initialize()
ix = LSHIndex({"metric": "euclidean"}); ix.initialize(st)
ix.insert(np.array([[1.0, 2.0]], dtype="f4"), [{}])
try:
    ix.insert(np.array([[3.0, 1.0], [1.0, -np.inf]], dtype="f4"), [{}, {}])
except Exception:
    pass
sys.exit(ix.get_stats()["num_vectors"] != 1)
'''

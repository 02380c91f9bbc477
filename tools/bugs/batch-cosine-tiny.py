PROPERTY='P31'
NEEDS='vectors whose norm is below 1e-10 (for instance 1e-12 times ordinary ones)'
BREAKS='batch cosine similarity takes tiny vectors for zero vectors and reports a similarity near 0 for equal directions'
EDITS=[('src/valori/utils/similarity.py','''    norms_a = np.where(norms_a == 0, 1, norms_a)
    norms_b = np.where(norms_b == 0, 1, norms_b)
''','''    norms_a = np.where(norms_a < 1e-10, 1, norms_a)
    norms_b = np.where(norms_b < 1e-10, 1, norms_b)
''')]
DEMO='''
import sys
import numpy as np
from valori.utils.similarity import batch_cosine_similarity
a = np.array([[3e-12, 4e-12], [3.0, 4.0]])
s = batch_cosine_similarity(a, np.array([[4.0, 3.0]]))
sys.exit(not np.allclose(s, 0.96))
'''

PROPERTY='P30'
NEEDS='vectors close to each other and far from the origin'
BREAKS='the Euclidean similarity is computed from squared norms and dot products, which cancel for vectors far from the origin'
EDITS=[('src/valori/utils/helpers.py','''        distances = np.linalg.norm(
            vectors[:, np.newaxis] - vectors[np.newaxis, :], axis=2
        )
''','''        squares = np.sum(vectors**2, axis=1)
        distances = np.sqrt(
            np.maximum(squares[:, None] + squares[None, :] - 2 * vectors @ vectors.T, 0)
        )
''')]
DEMO='''
import sys
import numpy as np
from valori.utils.helpers import compute_similarity_matrix
m = compute_similarity_matrix(np.array([[1e8, 0.0], [1e8 + 1, 0.0]]), "euclidean")
print(m)
sys.exit(bool(abs(m[0, 1] - 0.5) > 1e-6))
'''

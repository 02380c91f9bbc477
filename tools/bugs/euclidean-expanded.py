PROPERTY='P31'
NEEDS='two close vectors far from the origin'
BREAKS='the Euclidean distance is computed from norms and dot product, whose difference loses all digits when the vectors are close compared with their norms'
EDITS=[('src/valori/utils/similarity.py','''    return np.linalg.norm(a - b)
''','''    return np.sqrt(max(np.dot(a, a) + np.dot(b, b) - 2 * np.dot(a, b), 0.0))
''')]
DEMO='''
import sys
import numpy as np
from valori.utils.similarity import euclidean_distance
d = [euclidean_distance(np.array([1e9, x]), np.array([1e9, x + 3.0])) for x in (0.0, 1.0, 2.0)]
sys.exit(not np.allclose(d, 3.0))
'''

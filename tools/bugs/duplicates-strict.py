PROPERTY='P30'
NEEDS='a threshold equal to the similarity, for example exact copies with the Euclidean similarity and threshold 1'
BREAKS='vectors whose similarity is exactly the threshold are no duplicates'
EDITS=[('src/valori/utils/helpers.py',"""            if similarity_matrix[i, j] >= threshold:
""","""            if similarity_matrix[i, j] > threshold:
""")]
DEMO='''
import sys
import numpy as np
from valori.utils.helpers import find_duplicates
sys.exit(find_duplicates(np.array([[1.0, 2], [3, 4], [1, 2]]), 1.0, "euclidean") != [[0, 2]])
'''

PROPERTY='P33'
NEEDS='a vector whose entries are all the same infinity'
BREAKS='constant vectors are recognised by their range, which is not a number for infinite entries, so they are not counted'
EDITS=[('src/valori/utils/debugging.py','''            if np.all(vector == vector[0]):
''','''            if np.max(vector) - np.min(vector) == 0:
''')]
DEMO='''
import sys
import numpy as np
from valori.utils.debugging import VectorAnalyzer
v = np.array([[np.inf, np.inf], [1.0, 2.0], [3.0, 3.0]])
with np.errstate(all="ignore"):
    q = VectorAnalyzer().analyze_vectors(v)["quality"]
sys.exit(q["constant_vectors"] != 2)
'''

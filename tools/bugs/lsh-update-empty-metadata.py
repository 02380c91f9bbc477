PROPERTY='P07'
NEEDS='an update whose metadata is an empty dictionary'
BREAKS='empty metadata given to an update is taken for none, and the outdated metadata is returned'
EDITS=[('src/valori/indices/lsh.py','''            if metadata is not None:
                self''','''            if metadata:
                self''')]
DEMO='''
import sys
import numpy as np
from valori.indices import LSHIndex
x = LSHIndex({}); x.initialize()
v = np.array([[1.0, 2.0, 3.0]])
i = x.insert(v, [{"a": 1}])[0]
x.update(i, v[0], {})
r = x.search(v[0], 1)
print(r)
sys.exit(r[0]["metadata"] != {})
'''

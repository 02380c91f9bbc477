PROPERTY='P13'
NEEDS='integer (or other non-string) ids and the tensor persistence manager'
BREAKS='loaded ids are strings although numbers were saved'
EDITS=[('src/valori/persistence/tensor.py',"""            ids = data["ids"].tolist()
""","""            ids = [str(i) for i in data["ids"]]
""")]
DEMO='''
import sys, tempfile
import numpy as np
from valori.persistence import TensorPersistence
with tempfile.TemporaryDirectory() as d:
    p = TensorPersistence({"data_dir": d}); p.initialize()
    p.save_vectors(np.eye(2), [7, 8], "v.npz")
    sys.exit(0 if p.load_vectors("v.npz")[1] == [7, 8] else 1)
'''

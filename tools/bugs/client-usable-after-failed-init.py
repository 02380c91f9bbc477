PROPERTY='P11'
NEEDS='a persistence manager (or quantizer) that cannot be initialized, and using the client after the error'
BREAKS='the client counts as initialized before all of its components are, so after a failed initialization it takes vectors'
EDITS=[('src/valori/client.py','''            self.index.initialize(self.storage_backend)

''','''            self.index.initialize(self.storage_backend)
            self._initialized = True

'''),('src/valori/client.py','''                self.persistence_manager.initialize()

            self._initialized = True
''','''                self.persistence_manager.initialize()

''')]
DEMO='''
import os, sys, tempfile
import numpy as np
from valori import VectorDBClient
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
from valori.persistence import TensorPersistence
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "taken")
    open(f, "w").write("x")
    c = VectorDBClient(MemoryStorage({}), FlatIndex({}), persistence_manager=TensorPersistence({"data_dir": f}))
    try:
        c.initialize()
        print("initialized?")
        sys.exit(2)
    except Exception as e:
        print(e)
    try:
        c.insert(np.ones((1, 2), dtype=np.float32))
    except Exception as e:
        print(e)
        sys.exit(0)
sys.exit(1)
'''

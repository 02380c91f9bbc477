PROPERTY='P01'
NEEDS='an update with metadata None of a record that has metadata'
BREAKS='the old metadata stay although the update gave none'
EDITS=[('src/valori/storage/memory.py',"""                # Update metadata
                if metadata is not None:
                    self.metadata[id] = metadata
                else:
                    self.metadata.pop(id, None)

""","""                # Update metadata
                if metadata is not None:
                    self.metadata[id] = metadata

""")]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.array([1.0]), {"v": 1})
s.update_vector("a", np.array([2.0]), None)
sys.exit(0 if s.retrieve_vector("a")[1] is None else 1)
'''

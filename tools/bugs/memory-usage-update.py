PROPERTY='P36'
NEEDS='storing a vector under an id that is there already, larger or smaller than before, and looking at the usage'
BREAKS='the usage is recounted only when the number of entries changes, so it stays that of the old vector after an overwrite'
EDITS=[('src/valori/storage/memory.py','''                # Update stats
                self._vector_count = len(self.vectors)
                self._memory_usage = sum(
                    vector.nbytes for vector in self.vectors.values()
                ) + sum(
                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
                )

                return True
''','''                # Update stats
                if self._vector_count != len(self.vectors):
                    self._vector_count = len(self.vectors)
                    self._memory_usage = sum(
                        vector.nbytes for vector in self.vectors.values()
                    ) + sum(
                        len(str(meta).encode("utf-8"))
                        for meta in self.metadata.values()
                    )

                return True
''')]
DEMO='''
import sys
import numpy as np
from valori.storage import MemoryStorage
m = MemoryStorage({}); m.initialize()
m.store_vector("a", np.zeros(4, dtype=np.float32))
m.store_vector("a", np.zeros(40, dtype=np.float32))
sys.exit(m.get_stats()["memory_usage_bytes"] != 160)
'''

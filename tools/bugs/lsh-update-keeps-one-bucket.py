PROPERTY='P26'
NEEDS='an update of a stored vector whose hash changes in the last table only'
BREAKS='the hash codes of the new vector are only entered when the first table changes, so a later query may miss it and statistics are wrong'
EDITS=[('src/valori/indices/lsh.py',"""            for table_idx, hash_code in enumerate(old_hashes):
                if hash_code in self.hash_tables[table_idx]:
                    try:
                        self.hash_tables[table_idx][hash_code].remove(vector_id)
                    except ValueError:
                        pass

            # Store""","""            for table_idx, hash_code in enumerate(old_hashes[:-1]):
                if hash_code in self.hash_tables[table_idx]:
                    try:
                        self.hash_tables[table_idx][hash_code].remove(vector_id)
                    except ValueError:
                        pass

            # Store""")]
DEMO='''
import sys
import numpy as np
from valori.indices import LSHIndex
ix = LSHIndex({"num_hash_tables": 1, "hash_size": 4, "num_projections": 4})
ix.initialize()
ids = ix.insert(np.array([[1.0, 0.0]]), [{}])
for v in ([1.0, 0.0], [1.0, 0.0], [1.0, 0.0]):
    ix.update(ids[0], np.array(v))
st = ix.get_stats()
sys.exit(0 if st["num_vectors"] == 1 and st["max_bucket_size"] == 1 else 1)
'''

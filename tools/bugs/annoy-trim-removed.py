PROPERTY='P09'
NEEDS='removing the vector inserted last and inserting again'
BREAKS='places of removed vectors at the end are given up, but the next id still counts them, so ids no longer name their vectors'
EDITS=[('src/valori/indices/annoy.py',"""                self.vectors[vector_id] = None
                self.metadata[vector_id] = None

""","""                self.vectors[vector_id] = None
                self.metadata[vector_id] = None

        while self.vectors and self.vectors[-1] is None:
            self.vectors.pop()
            self.metadata.pop()

""")]
DEMO='''
import sys
import numpy as np
from valori.indices import AnnoyIndex
i = AnnoyIndex({"metric": "euclidean"}); i.initialize()
i.insert(np.array([[0.0, 1], [5.0, 5]]), [{"n": 0}, {"n": 1}])
i.delete(["1"])
new = i.insert(np.array([[9.0, 9]]), [{"n": 2}])
i.build()
r = i.search(np.array([9.0, 9.0], dtype=np.float32), 1)[0]
sys.exit(str(r["id"]) != str(new[0]))
'''

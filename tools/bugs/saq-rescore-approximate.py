PROPERTY='P19'
NEEDS='a search whose candidates are ordered differently by the quantized and the true distance, with fewer results than candidates'
BREAKS='the results are the best candidates by the quantized distance, ordered by their true distance, instead of the best by the true distance'
EDITS=[('src/valori/quantization/saq.py',"""        top_indices = np.argsort(distances)[:top_k]
""","""        distances = distances[:top_k]
        top_indices = np.argsort(distances)
""")]
DEMO='''
import sys
import numpy as np
from valori.quantization import SAQQuantizer
r = np.random.RandomState(0)
x = r.randn(60, 3).astype(np.float32)
q = SAQQuantizer({"n_segments": 2, "total_bits": 3, "rescore_top_k": 60}); q.initialize(); q.train(x)
codes = q.quantize(x)
bad = 0
for s in range(10):
    v = r.randn(3)
    i, d = q.search_with_rescoring(v, codes, 3)
    true = 1 - x @ v / np.linalg.norm(x, axis=1) / np.linalg.norm(v)
    bad += not np.allclose(sorted(d), sorted(true)[:3], atol=1e-4)
sys.exit(bool(bad))
'''

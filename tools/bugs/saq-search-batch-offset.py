PROPERTY='P19'
NEEDS='a SAQ store with more than one search batch (more than 1000 vectors) whose nearest vector lies in a later batch'
BREAKS='every search batch starts at the beginning of the store, so vectors beyond the first batch are ranked with the codes of others'
EDITS=[('src/valori/quantization/saq.py',"""            batch_end = min(i + batch_size, n_vectors)
            batch_vectors = quantized_vectors[i:batch_end]
""","""            batch_end = min(i + batch_size, n_vectors)
            batch_vectors = quantized_vectors[: batch_end - i]
""")]
DEMO='''
import sys
import numpy as np
from valori.quantization import SAQQuantizer
r = np.random.RandomState(0)
x = r.randn(1100, 2).astype(np.float32)
x[1050] = [30, 40]
q = SAQQuantizer({"n_segments": 2, "total_bits": 8, "rescore_top_k": 20}); q.initialize()
import valori.quantization.saq as m
q.train(x)
bad = 0
codes = q.quantize(x)
def best(query, n):
    d = [q.compute_distance(query, c) for c in codes]
    return sorted(d)[:n]
for s in range(5):
    query = r.randn(2)
    c = q._initial_quantized_search(query, codes, 20)
    got = sorted(q.compute_distance(query, codes[i]) for i in c)
    bad += not np.allclose(got, best(query, 20))
sys.exit(bool(bad))
'''

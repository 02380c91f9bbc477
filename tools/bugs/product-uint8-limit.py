PROPERTY='P18'
NEEDS='a product quantizer with exactly 257 codewords per subvector (and as many training vectors)'
BREAKS='the code type is chosen one codeword too late: codeword 256 wraps around to codeword 0'
EDITS=[('src/valori/quantization/product.py',"""            if effective_k - 1 <= np.iinfo(np.uint8).max:
""","""            if effective_k - 1 <= np.iinfo(np.uint8).max + 1:
""")]
DEMO='''
import sys
import numpy as np
from valori.quantization import ProductQuantizer
x = np.arange(257, dtype=np.float32).reshape(-1, 1) * 10
q = ProductQuantizer({"m": 1, "k": 257}); q.initialize(); q.train(x)
y = q.dequantize(q.quantize(x))
sys.exit(0 if np.abs(x - y).max() < 1e-3 else 1)
'''

PROPERTY='P18'
NEEDS='training data with a range below 1e-6 in some dimension (small but varying values)'
BREAKS='dimensions with a small range count as constant and lose all information'
EDITS=[('src/valori/quantization/scalar.py',"""            scales = np.where(scales == 0, 1.0, scales)
""","""            scales = np.where(scales < 1e-6, 1.0, scales)
""")]
DEMO='''
import sys
import numpy as np
from valori.quantization import ScalarQuantizer
x = np.array([[0.0, 0.0], [1e-4, 1.0]])
q = ScalarQuantizer({"bits": 8}); q.initialize(); q.train(x)
y = q.dequantize(q.quantize(x))
sys.exit(0 if abs(y[1, 0] - 1e-4) < 1e-6 else 1)
'''

PROPERTY='P24'
NEEDS='two texts that differ in the white space around them only'
BREAKS='texts share a cache entry if they agree up to surrounding white space'
EDITS=[('src/valori/processors/embedding.py',"""        content = f"{text}_{self.model_name}_{self.model_type}"
""","""        content = f"{text.strip()}_{self.model_name}_{self.model_type}"
""")]
DEMO='''
import sys, types
import numpy as np
m = types.ModuleType("sentence_transformers")
class ST:
    def __init__(self, name): pass
    def to(self, d): return self
    def encode(self, t, convert_to_numpy=True):
        f = lambda x: np.array([len(x), sum(map(ord, x)), 1.0])
        return f(t) if isinstance(t, str) else np.array([f(x) for x in t])
m.SentenceTransformer = ST
sys.modules["sentence_transformers"] = m
from valori.processors.embedding import EmbeddingProcessor
p = EmbeddingProcessor({}); p.initialize()
a = p.process({"text": "abc"})["embedding"]
b = p.process({"text": " abc  "})["embedding"]
q = EmbeddingProcessor({"cache_embeddings": False}); q.initialize()
c = q.process({"text": " abc  "})["embedding"]
sys.exit(not np.array_equal(b, c))
'''

PROPERTY='P24'
NEEDS='two texts that agree in their first max_length characters, embedded by one processor with caching'
BREAKS='the cache key only covers the first max_length characters, so the second text gets the embedding of the first'
EDITS=[('src/valori/processors/embedding.py',"""        content = f"{text}_{self.model_name}_{self.model_type}"
""","""        content = f"{text[: self.max_length]}_{self.model_name}_{self.model_type}"
""")]
DEMO='''
import sys, types
import numpy as np
m = types.ModuleType("sentence_transformers")
class ST:
    def __init__(self, name): pass
    def to(self, d): return self
    def encode(self, t, convert_to_numpy=True):
        f = lambda x: np.array([len(x), sum(map(ord, x)), 1.0])
        return f(t) if isinstance(t, str) else np.array([f(x) for x in t])
m.SentenceTransformer = ST
sys.modules["sentence_transformers"] = m
from valori.processors.embedding import EmbeddingProcessor
p = EmbeddingProcessor({}); p.initialize()
a = p.process({"text": "x" * 600})["embedding"]
b = p.process({"text": "x" * 600 + "yyyyyyyyyyyyyy"})["embedding"]
q = EmbeddingProcessor({"cache_embeddings": False}); q.initialize()
c = q.process({"text": "x" * 600 + "yyyyyyyyyyyyyy"})["embedding"]
sys.exit(not np.array_equal(b, c))
'''

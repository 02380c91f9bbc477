PROPERTY='P29'
NEEDS='a document database with an overlap of more than a tenth of the chunk size and a document no single chunk can hold'
BREAKS='the pipeline of a document database caps the requested overlap'
EDITS=[('src/valori/factory.py','''                "chunk_size": chunk_size,
                "chunk_overlap": chunk_overlap,
            },
            "embedding"''','''                "chunk_size": chunk_size,
                "chunk_overlap": min(chunk_overlap, chunk_size // 10),
            },
            "embedding"''')]
DEMO='''
import sys
import types
import numpy as np


class SentenceTransformer:
    def __init__(self, *a, **k):
        pass

    def to(self, device):
        return self

    def encode(self, texts, **k):
        return np.ones(2, "f4") if isinstance(texts, str) else np.ones((len(texts), 2), "f4")

    def get_sentence_embedding_dimension(self):
        return 2


m = types.ModuleType("sentence_transformers")
m.SentenceTransformer = SentenceTransformer
sys.modules["sentence_transformers"] = m
import valori
c, p = valori.create_document_db(chunk_size=100, chunk_overlap=50, index_type="flat")
r = p.process_text("abcdefghij" * 400)
a, b = r["chunks"][:2]
sys.exit(a["end_pos"] - b["start_pos"] != 50)
'''

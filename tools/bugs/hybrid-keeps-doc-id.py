PROPERTY='P29'
NEEDS='documents that carry a doc_id of their own'
BREAKS='the number of the document in the database is not set for documents which bring a field of that name'
EDITS=[('src/valori/factory.py','''        combined_meta["doc_id"] = i
''','''        combined_meta.setdefault("doc_id", i)
''')]
DEMO='''
import sys
import types
import numpy as np


class SentenceTransformer:
    def __init__(self, *a, **k):
        pass

    def encode(self, texts, **k):
        return np.array([[float(len(t)), 1.0] for t in texts], dtype="f4")


m = types.ModuleType("sentence_transformers")
m.SentenceTransformer = SentenceTransformer
sys.modules["sentence_transformers"] = m
import valori
db = valori.create_hybrid_search_db([{"text": "a"}, {"text": "bbbb", "doc_id": 0}])
ids = sorted(r["metadata"]["doc_id"] for r in db.search(np.array([1.0, 1.0], dtype="f4"), 5))
sys.exit(ids != [0, 1])
'''

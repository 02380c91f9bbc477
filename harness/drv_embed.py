"""Drives the embedding processor (with stub models) and records traces for TrEmbed."""
import copy
import unicodedata

import numpy as np
import stub_models
import valori_env  # noqa: F401

MODELS = ("sentence_transformers", "openai", "huggingface")
NASTY = ["", " ", "\n\t ", "\u3000", "a", "b", "A", " a", "a ", "a b", "ZERO", "BOOM", "test", "BOOM test",
         "a_small_sentence_transformers", "\u00e9", "e\u0301", "\ud800x", "\x00", "a\x00", "x" * 300, "x" * 301, "x" * 5000, "0", "None"]


def relatives(rng):
    """Texts that are easily taken for one another."""
    n = rng.choice([3, 20, 40, 70, 100, 130, 200, 260, 515, 600, 1030, 2050, 5000, 10000])
    a = "".join(rng.choice("ab cdEF\u00e9.,\n") for _ in range(n)) + "z"
    i = rng.randrange(n)
    all_ = [a, a + "y", a[:i] + "#" + a[i + 1:], a[:i] + a[i + 1:], a[::-1], a + a, a.upper(), a.lower(), a.swapcase(), " " + a, a + "\n",
            a.replace(" ", "  "), a.replace(" ", ""), a.replace("\n", " "), a.replace(".", ""), a + ".", "#" + a, a[: n // 2], a[n // 2:],
            unicodedata.normalize("NFD", a), unicodedata.normalize("NFC", a), "".join(sorted(a)), a + "\x00", a + "_", a + " " + a]
    k = rng.randint(2, 5)
    return [all_[0]] + rng.sample(all_[1:], k)


class World:
    def __init__(self, texts, cache, norm, mtype, model, bs, drop=(), maxlen=512, device=None):
        stub_models.install()
        if mtype == "huggingface" or device == "auto":
            stub_models.install_torch()
        from valori.processors.embedding import EmbeddingProcessor
        self.name = model or "sentence-transformers/all-MiniLM-L6-v2"
        ref = "openai" if mtype == "openai" else self.name
        self.dim = stub_models.DIMS.get(ref, 8)
        self.ids = {t: "t%d" % i for i, t in enumerate(texts)}
        give = (lambda t: stub_models.pooled(t, ref, maxlen)) if mtype == "huggingface" else (lambda t: stub_models.vector(t, ref))
        self.raw = {t: give(t).astype(np.float64) for t in texts}
        cfg = {"cache_embeddings": cache, "normalize_embeddings": norm, "model_type": mtype, "batch_size": bs}
        if maxlen != 512:
            cfg["max_length"] = maxlen
        if device:
            cfg["device"] = device
        if model:
            cfg["model_name"] = model
        for k, v in (("cache_embeddings", True), ("normalize_embeddings", True), ("model_type", "sentence_transformers"), ("batch_size", 32)):
            if cfg[k] == v and k in drop:
                del cfg[k]
        self.p = EmbeddingProcessor(cfg)
        self.norm = norm
        self.held = []
        facts = {self.ids[t]: {"blank": not t.strip(), "null": not np.any(self.raw[t]), "fail": stub_models.FAIL in t} for t in texts}
        self.trace = [{"op": "reset", "norm": norm, "dim": self.dim, "tx": facts, "cache": cache, "mtype": mtype,
                       "known": mtype in MODELS}]

    def name_of(self, v, t):
        """Which reference vector v agrees with; t: the text expected."""
        v = np.asarray(v)
        if v.shape != (self.dim,) or v.dtype.kind != "f":
            return ["other"]
        v = v.astype(np.float64)
        if not np.any(v):
            return ["zero"]
        for u in [t] + list(self.raw):
            r = self.raw[u]
            n = np.linalg.norm(r)
            if u.strip() and n > 0:
                if np.allclose(v, r / n, rtol=1e-5, atol=1e-7):
                    return ["unit", self.ids[u]]
                if np.allclose(v, r, rtol=1e-5, atol=1e-7):
                    return ["raw", self.ids[u]]
        return ["other"]

    def do(self, op, texts=(), chunks=None, extra=None):
        e = {"op": op, "texts": [self.ids[t] for t in texts], "chunks": [self.ids[t] for t in chunks or []],
             "haschunks": chunks is not None, "out": [], "outs": [], "dims": True, "kept": True, "n": -1}
        try:
            self.act(e, op, list(texts), chunks, extra)
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100].encode("ascii", "replace").decode())
        self.trace.append(e)

    def act(self, e, op, texts, chunks, extra):
        p = self.p
        if op == "init":
            p.initialize()
        elif op == "close":
            p.close()
        elif op == "clear":
            p.clear_cache()
        elif op == "dim":
            e["n"] = int(p.get_embedding_dimension())
            if p.get_stats()["embedding_dimension"] != e["n"]:
                e["n"] = -2
        elif op == "spoil":
            for v in self.held:
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 77.0
                elif isinstance(v, list):
                    v.clear()
            self.held = []
        elif op == "batch":
            before = list(texts)
            r = p.batch_process(texts)
            e["dims"] = len(r) == len(before) and texts == before
            e["out"] = [self.name_of(v, t) for v, t in zip(r, before)]
            self.held += list(r)
        else:
            doc = {"metadata": {"k": [1]}, "other": "x"}
            if texts:
                doc["text"] = texts[0]
            if chunks is not None:
                doc["chunks"] = [{"id": i, "text": t} for i, t in enumerate(chunks)]
            before = copy.deepcopy(doc)
            r = p.process(doc)
            e["kept"] = doc == before and {k: v for k, v in r.items() if k not in ("embedding", "chunk_embeddings")} == before
            e["dims"] = ("embedding" in r) == bool(texts) and ("chunk_embeddings" in r) == (chunks is not None)
            if texts:
                e["out"] = [self.name_of(r["embedding"], texts[0])]
                self.held.append(r["embedding"])
            if chunks is not None:
                e["dims"] = e["dims"] and len(r["chunk_embeddings"]) == len(chunks)
                e["outs"] = [self.name_of(v, t) for v, t in zip(r["chunk_embeddings"], chunks)]
                self.held += list(r["chunk_embeddings"])


def replay(rng, ops):
    """A history of EmbedGen; embeddings requested one by one, as chunks or as a batch."""
    names = {"ab": "ab", "ac": "ac", "b": "b", "blank": "  ", "fail": "BOOM"}
    w = World(list(names.values()), rng.random() < 0.7, rng.random() < 0.5, rng.choice(MODELS),
              rng.choice([None, "small"]), rng.choice([1, 32]))
    for op in ops:
        if op["op"] == "embed":
            t = names[op["t"]]
            k = rng.random()
            if k < 0.5:
                w.do("process", [t])
            elif k < 0.8:
                w.do("process", [], [t])
            else:
                w.do("batch", [t])
        else:
            w.do(op["op"])
    return w.trace


def random_run(rng, n=30):
    near = relatives(rng)
    texts = rng.sample(NASTY, rng.randint(2, 8)) + near + ["word%d %s" % (i, "ab" * rng.randint(0, 20)) for i in range(2)]
    texts = list(dict.fromkeys(texts))
    w = World(texts, rng.random() < 0.7, rng.random() < 0.5, rng.choice(["sentence_transformers", "sentence_transformers", "openai", "huggingface"]) if rng.random() < 0.96 else "other",
              rng.choice([None, "small", "wide"]), rng.choice([1, 2, 3, 5, 32]),
              [k for k in ("cache_embeddings", "normalize_embeddings", "model_type", "batch_size") if rng.random() < 0.5],
              rng.choice([512, 512, 1, 2, 5, 30]), rng.choice([None, None, "cpu", "auto"]))
    safe = [t for t in texts if stub_models.FAIL not in t]
    w.do("init") if rng.random() < 0.95 else None
    for _ in range(n):
        pool = texts if rng.random() < 0.2 else near if rng.random() < 0.3 else safe
        k = rng.random()
        if k < 0.5:
            w.do("process", [rng.choice(pool)] if rng.random() < 0.8 else [],
                 [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 5]))] if rng.random() < 0.6 else None)
        elif k < 0.75:
            w.do("batch", [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 11]))])
        elif k < 0.87:
            w.do("spoil")
        elif k < 0.92:
            w.do("clear")
        elif k < 0.96:
            w.do("dim")
        else:
            w.do("close")
            if rng.random() < 0.3:
                w.do("process", [rng.choice(safe)])
                w.do("dim")
            w.do("init")
    return w.trace

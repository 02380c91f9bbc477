"""Runs components through histories and records what they report, for TrStats."""
import copy
import os
import shutil

import numpy as np

import core
import drv_index
import stub_models
import valori_env  # noqa: F401


def spoil(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
        x[...] = 77


def sizes(path):
    return [os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(path) for f in fs]


def whole(x):
    """A number that has to be whole, otherwise -1."""
    return int(round(x)) if abs(x - round(x)) < 1e-6 else -1


def near(x):
    """A product of a reported mean and its number, rounding errors off; otherwise -1."""
    return int(round(x)) if abs(x - round(x)) < 1e-4 else -1


class Life:
    """One component, its trace and how to read its statistics."""

    def __init__(self, kind, cfg=None):
        self.kind, self.cfg = kind, cfg or {}
        self.path = core.fresh_dir("stats")
        self.ev = [{"op": "reset", "kind": kind}]

    def call(self, op, f, **e):
        e["op"] = op
        try:
            r = f()
            e["r"] = "true" if r is True else "false" if r is False else "ok"
            if op in ("init", "close", "save", "load", "insert") and e["r"] == "true":
                e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            r, e["r"], e["x_"] = None, "err", type(x).__name__ + ": " + str(x)[:60].encode("ascii", "replace").decode()
        if op == "init":
            e.setdefault("procs", [])
        self.ev.append(e)
        return r, e

    def obs(self, get, got, **e):
        e.update(op="obs", files=sizes(self.path), got={}, same=False, config=False, ini=False)
        try:
            s = get()
            keep = copy.deepcopy(s)
            spoil(s)
            s = get()
            e["same"] = repr(s) == repr(keep)
            e["r"] = "closed" if s == {"status": "not_initialized"} else "ok"
            if e["r"] == "ok":
                e["ini"] = s.get("initialized") is True
                e["config"] = all(s[k] == v for k, v in self.cfg.items() if k in s) and "error" not in s
                e["got"] = got(s)
        except Exception as x:  # noqa: BLE001
            e["r"], e["x_"] = "err", type(x).__name__ + ": " + str(x)[:100]
        self.ev.append(e)

    def done(self):
        shutil.rmtree(self.path, ignore_errors=True)
        return self.ev


# ------------------------------------------------------------------ storage
METAS = [None, None, {}, {"k": 1}, {"k": "\u00e9\u6f22"}, {"a": [1, {"b": None}], "c": "x" * 50}, {"k": "\ud800"}]


def vector(rng):
    dt = rng.choice(["f4", "f8", "f4", "i8", "u1", "f2"])
    n = rng.choice([0, 1, 2, 3, 7, 100])
    v = np.arange(n * 2).astype(dt)
    return v[::2] if rng.random() < 0.2 else v[:n]


def mem(s):
    return {"count": s["vector_count"], "bytes": whole(s["memory_usage_bytes"]), "mb": whole(s["memory_usage_mb"] * 2 ** 20)}


def disk(s):
    return {"usage": whole(s["disk_usage_bytes"]), "mb": whole(s["disk_usage_mb"] * 2 ** 20)}


def storage_said(s):
    if s["backend_type"] == "memory":
        return mem(s)
    if s["backend_type"] == "disk":
        return dict(disk(s), count=s["vector_count"])
    return dict(disk(s["disk"]), count=s["disk"]["vector_count"], memory=mem(s["memory"]), limit=s["memory_limit"])


class Store(Life):
    def __init__(self, kind, rng):
        super().__init__(kind)
        self.rng, self.limit = rng, rng.choice([0, 1, 2, 100])
        self.make()

    def make(self):
        self.st = drv_index.make_storage(self.kind, self.path, self.limit)

    def put(self, op, i, v, m):
        f = self.st.store_vector if op == "store" else self.st.update_vector
        self.call(op, lambda: f(i, v, m), id=i, vb=int(v.nbytes), mb=0 if m is None else len(str(m).encode("utf-8")))

    def look(self):
        self.obs(self.st.get_stats, storage_said, limit=self.limit)


def storage(rng, steps=30):
    w = Store(rng.choice(["memory", "disk", "hybrid"]), rng)
    if rng.random() < 0.9:
        w.call("init", w.st.initialize)
    ids = ["a", "b", "c", "\u00e9"][: rng.randint(1, 4)]
    for _ in range(steps):
        i, r = rng.choice(ids), rng.random()
        if r < 0.4:
            w.put("store", i, vector(rng), copy.deepcopy(rng.choice(METAS)))
        elif r < 0.6:
            w.put("update", i, vector(rng), copy.deepcopy(rng.choice(METAS)))
        elif r < 0.75:
            w.call("delete", lambda: w.st.delete_vector(i), id=i)
        elif r < 0.8:
            w.call("get", lambda: w.st.retrieve_vector(i) and None)
        elif r < 0.83:
            w.call("close", w.st.close)
            w.look()
            if rng.random() < 0.7:
                w.make()
                w.ev.append({"op": "new"})
            w.call("init", w.st.initialize)
        elif r < 0.86:
            bad = {"k": Uncopyable()}
            w.call("store", lambda: w.st.store_vector(i, vector(rng), bad), id=i, vb=0, mb=0)
        else:
            w.look()
    w.look()
    return w.done()


class Uncopyable:
    def __deepcopy__(self, memo):
        raise RuntimeError("cannot be copied")

    def __reduce__(self):
        raise RuntimeError("cannot be pickled")


def replay(rng, ops):
    """A history of StatsGen on a real store."""
    w = Store(rng.choice(["memory", "memory", "hybrid", "disk"]), rng)
    w.call("init", w.st.initialize)
    for e in ops:
        if e["op"] == "delete":
            w.call("delete", lambda: w.st.delete_vector(e["id"]), id=e["id"])
        else:
            m = None if e["mb"] == 0 else rng.choice([{}, {"k": 1}, {"k": "\u00e9"}])
            w.put(e["op"], e["id"], np.zeros(e["vb"] // 4, dtype="f4"), m)
        w.look()
    return w.done()


# -------------------------------------------------------------- persistence
def persistence(rng, steps=16):
    from valori.persistence import IncrementalPersistence, TensorPersistence
    kind = rng.choice(["tensor", "incremental"])
    w = Life(kind)
    cfg = {"data_dir": w.path}
    if kind == "tensor":
        w.cfg = {"compression_enabled": rng.random() < 0.5}
        cfg["compression"] = w.cfg["compression_enabled"]
    else:
        cfg["checkpoint_interval"] = rng.choice([1, 2, 5])
        w.cfg = {"checkpoint_interval": cfg["checkpoint_interval"]}
    every = cfg.get("checkpoint_interval", 100)
    cls = TensorPersistence if kind == "tensor" else IncrementalPersistence

    def said(s):
        g = disk(s)
        if kind == "tensor":
            g.update(saves=s["save_count"], loads=s["load_count"], nfiles=s["file_count"])
        else:
            g.update(checkpoints=s["checkpoint_count"], ops=s["operation_count"], logged=s["logged_operations"], last=s["last_checkpoint"])
        return g

    def look():
        n = len([f for f in os.listdir(w.path) if f.startswith("checkpoint_") and f.endswith(".pkl")]) if os.path.isdir(w.path) else 0
        w.obs(p.get_stats, said, checkpoints=n)

    def load(f, none):
        e = w.call("load", f, found=False)
        e[1]["found"] = e[0] is not None and e[0] != none
    p = cls(dict(cfg))
    if rng.random() < 0.9:
        w.call("init", p.initialize)
    for _ in range(steps):
        r, name = rng.random(), rng.choice(["a.npz", "b", "sub/c.npz", "d.pkl"])
        if r < 0.15:
            w.call("save", lambda: p.save_state({"n": 1, "m": [2]}, "state_" + name.replace("/", "_")), state=True, every=every)
        elif r < 0.3:
            w.call("save", lambda: p.save_vectors(np.zeros((3, 2), dtype="f4"), ["x", "y", "z"], "v_" + name.replace("/", "_")), state=False, every=every)
        elif r < 0.4:
            w.call("save", lambda: p.save_index({"k": list(range(rng.randint(0, 50)))}, "i_" + name), state=False, every=every)
        elif r < 0.45:
            w.call("save", lambda: p.save_index({"k": lambda: 1}, "bad"), state=False, every=every)
        elif r < 0.55:
            load(lambda: p.load_state("state_" + name.replace("/", "_")), None)
        elif r < 0.62:
            v = lambda: (lambda x: None if x is None or x[0] is None else True)(p.load_vectors("v_" + name.replace("/", "_")))  # noqa: E731
            load(v, None)
        elif r < 0.7:
            load(lambda: p.load_index("i_" + name), None)
        elif r < 0.75:
            w.call("close", p.close)
            look()
            if rng.random() < 0.7:
                p = cls(dict(cfg))
                w.ev.append({"op": "new"})
            w.call("init", p.initialize)
        else:
            look()
    look()
    return w.done()


# --------------------------------------------------------------- processors
TEXTS = ["", " ", "one", "Some  text.", "<b>Bold</b> claim! &amp; more", "A longer text. With sentences.\n\nAnd paragraphs, " * 5,
         "caf\u00e9 \u6f22\u5b57", "THE and Of a"]


def cleaning(rng):
    from valori.processors import CleaningProcessor
    w = Life("cleaning", {k: rng.random() < 0.5 for k in ("remove_html", "normalize_whitespace", "remove_special_chars",
                                                          "normalize_unicode", "lowercase", "remove_stopwords")})
    p = CleaningProcessor(dict(w.cfg))

    def look():
        w.obs(p.get_stats, lambda s: {
            "docs": s["documents_processed"], "before": s["total_characters_before"], "after": s["total_characters_after"],
            "removed": s["characters_removed"], "product": near(s["compression_ratio"] * s["total_characters_before"])})
    for _ in range(rng.choice([0, 1, 5])):
        step_clean(w, p, rng, look)
    w.call("init", p.initialize)
    for _ in range(12):
        step_clean(w, p, rng, look)
        if rng.random() < 0.06:
            w.call("close", p.close)
            look()
            if rng.random() < 0.5:
                w.call("init", p.initialize)
    look()
    return w.done()


def step_clean(w, p, rng, look):
    doc = {}
    if rng.random() < 0.8:
        doc["text"] = rng.choice(TEXTS)
    if rng.random() < 0.5:
        doc["chunks"] = [{"id": k, "text": rng.choice(TEXTS)} for k in range(rng.randint(0, 3))]
    r, e = w.call("clean", lambda: p.process(doc), before=len(doc.get("text", "")), after=0)
    e["after"] = len(r.get("text", "")) if r else 0
    if rng.random() < 0.4:
        look()


def chunking(rng):
    from valori.processors import ChunkingProcessor
    w = Life("chunking", {"strategy": rng.choice(["fixed_size", "semantic", "sliding_window"]), "chunk_size": rng.choice([5, 20, 60]),
                          "chunk_overlap": rng.choice([0, 2]), "min_chunk_size": rng.choice([1, 4]), "max_chunk_size": rng.choice([60, 200])})
    p = ChunkingProcessor(dict(w.cfg))

    def look():
        w.obs(p.get_stats, lambda s: {"made": s["chunks_created"], "before": s["total_characters_processed"],
                                      "product": near(s["average_chunk_size"] * max(1, s["chunks_created"]))})
    if rng.random() < 0.9:
        w.call("init", p.initialize)
    for _ in range(12):
        t = rng.choice(TEXTS)
        doc = {"text": t} if rng.random() < 0.9 else {}
        if rng.random() < 0.2:
            doc["chunks"] = [{"id": 7, "text": "old"}] * 3
        r, e = w.call("chunk", lambda: p.process(doc), before=len(doc.get("text", "")), made=0)
        e["made"] = len(r["chunks"]) if r else 0
        if rng.random() < 0.5:
            look()
        if rng.random() < 0.05:
            w.call("close", p.close)
    look()
    return w.done()


def embedding(rng):
    stub_models.install()
    from valori.processors import EmbeddingProcessor
    w = Life("embedding", {"cache_embeddings": rng.random() < 0.7, "normalize_embeddings": rng.random() < 0.5,
                           "batch_size": rng.choice([1, 2, 32]), "model_type": rng.choice(["sentence_transformers", "openai"])})
    p = EmbeddingProcessor(dict(w.cfg))
    cache = w.cfg["cache_embeddings"]

    def look():
        w.obs(p.get_stats, lambda s: {
            "docs": s["texts_processed"], "made": s["embeddings_generated"], "hits": s["cache_hits"], "size": s["cache_size"],
            "product": near(s["cache_hit_rate"] * (s["cache_hits"] + s["embeddings_generated"]))})
    if rng.random() < 0.95:
        w.call("init", p.initialize)
    pool = ["", "  ", "a", "b", "test", "A", "a b", "ZERO", "\u00e9"]

    def named(ts):
        return ["t" + t if t.strip() else "blank" for t in ts]
    for _ in range(15):
        r = rng.random()
        ts = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
        if r < 0.4:
            doc = {"chunks": [{"text": t} for t in ts[1:]]}
            if ts:
                doc["text"] = ts[0]
            if len(ts) == 1:
                del doc["chunks"]
            w.call("embed", lambda: p.process(doc), texts=named(ts), cache=cache)
        elif r < 0.6:
            w.call("batch", lambda: p.batch_process(ts), texts=named(ts), cache=cache,
                   whole=w.cfg["model_type"] == "sentence_transformers")
        elif r < 0.65:
            w.call("forget", p.clear_cache)
        elif r < 0.7:
            w.call("dim", p.get_embedding_dimension)
        elif r < 0.74:
            w.call("embed", lambda: p.process({"text": "BOOM"}), texts=["tBOOM"], cache=cache)
        else:
            look()
    look()
    return w.done()


# ------------------------------------------------------------------ indices
def index(rng):
    kind = rng.choice(["flat", "hnsw", "ivf", "lsh", "annoy"])
    metric = {"flat": "cosine", "hnsw": "euclidean", "ivf": "euclidean", "annoy": "angular"}.get(kind)
    w = Life(kind, {"metric": metric} if metric else {})
    cfg = dict(w.cfg)
    if kind == "ivf":
        cfg.update(n_clusters=3, n_probes=2)
        w.cfg = dict(cfg)
    if kind == "lsh":
        cfg.update(num_hash_tables=3, hash_size=4, num_projections=8)
        w.cfg = dict(cfg)
    ix = drv_index.make_index(kind, cfg)

    def said(s):
        g = {"count": s.get("vector_count", s.get("num_vectors"))}
        if kind in ("flat", "ivf"):
            g["cached"] = s["cache_size"]
        if kind == "ivf":
            g["trained"], g["clusters"] = bool(s["trained"]), [int(x) for x in s["cluster_stats"].values()]
        if kind in ("lsh", "annoy"):
            g["capacity"] = s["total_capacity"]
        if kind == "lsh":
            g["tables"], g["largest"] = s["num_hash_tables"], int(s["max_bucket_size"])
            g["entries"] = near(float(s["avg_bucket_size"]) * sum(s["hash_table_sizes"]))
        return g

    def look():
        w.obs(ix.get_stats, said)
    if rng.random() < 0.3:
        look()
    w.call("init", ix.initialize)
    g = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    live = []
    for _ in range(12):
        r = rng.random()
        if r < 0.35:
            n = rng.randint(1, 6)
            v = g.normal(size=(n, 4)).astype("f4")
            v[rng.randrange(n)] = v[0]
            ids, e = w.call("insert", lambda: ix.insert(v, [{"i": k} for k in range(n)]), ids=[])
            e["ids"] = list(ids or [])
            live += e["ids"]
        elif r < 0.55 and live:
            i = rng.choice(live)
            live.remove(i)
            w.call("delete", lambda: ix.delete([i]), id=i)
        elif r < 0.65 and live:
            i = rng.choice(live)
            w.call("update", lambda: ix.update(i, g.normal(size=4).astype("f4"), {"u": 1}), id=i, vb=0, mb=0)
        elif r < 0.72 and live:
            w.call("search", lambda: ix.search(g.normal(size=4).astype("f4"), k=3) and None)
        else:
            look()
    look()
    return w.done()


# --------------------------------------------------------------- quantizers
def quantizer(rng):
    from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer
    kind = rng.choice(["scalar", "scalar", "product", "product", "saq"])
    m, k, bits = rng.choice([1, 2, 4]), rng.choice([1, 2, 4, 16]), rng.choice([1, 4, 8, 16])
    w = Life(kind, {"scalar": {"bits": bits}, "product": {"m": m, "k": k}, "saq": {"total_bits": rng.choice([16, 32]), "n_segments": 2}}[kind])
    q = {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}[kind](dict(w.cfg))

    def said(s):
        g = {"trained": s["trained"] is True}
        if kind == "saq":
            g["dim"] = s["dimensions"] or 0
        elif g["trained"]:
            g["dim"] = s["dimensions"]
            if kind == "scalar":
                g.update(lo=[whole(float(x)) for x in s["min_values_range"]], hi=[whole(float(x)) for x in s["max_values_range"]],
                         product=near(s["compression_ratio"] * bits))
            else:
                b = s["bits_per_subvector"]
                g.update(sub=s["subvector_dimensions"], k=s["effective_k"], shape=list(s["centroids_shape"]), codes=near(2.0 ** b),
                         total=abs(s["total_bits"] - m * b) < 1e-6, product=near(s["compression_ratio"] * b))
        return g

    def look():
        w.obs(q.get_stats, said, m=m, k=k)
    look()
    w.call("init", q.initialize)
    for _ in range(6):
        r = rng.random()
        if r < 0.4:
            n = rng.choice([1, 2, 3, 5, 20]) if kind != "saq" else rng.choice([8, 20])
            d = rng.choice([4, 8, 3])
            v = np.random.RandomState(rng.randint(0, 2 ** 31 - 1)).randint(-50, 50, (n, d)).astype(rng.choice(["f4", "f8"]))
            w.call("train", lambda: q.train(v), shape=[n, d], lo=[int(v.min(0).min()), int(v.min(0).max())],
                   hi=[int(v.max(0).min()), int(v.max(0).max())])
            if w.ev[-1]["r"] == "err":       # what a failed training leaves is not the matter here
                return w.done()
        elif r < 0.45:
            w.call("close", q.close)
        elif r < 0.5:
            return w.done()
        else:
            look()
    look()
    return w.done()


# ----------------------------------------------------------------- pipeline
def pipeline(rng):
    stub_models.install()
    from valori.processors import ProcessingPipeline
    w = Life("pipeline")
    names = [n for n in ("cleaning", "chunking", "embedding") if rng.random() < 0.7]
    conf = {"cleaning": {}, "chunking": {"chunk_size": 20, "chunk_overlap": 3, "min_chunk_size": 1}, "embedding": {}}
    order = list(names)
    rng.shuffle(order)
    parsers = [n for n in ("text", "office", "pdf") if rng.random() < 0.6]
    p = ProcessingPipeline({"processors": {n: conf[n] for n in order}, "parsers": {n: {} for n in parsers}})
    cls = {"CleaningProcessor": "cleaning", "ChunkingProcessor": "chunking", "EmbeddingProcessor": "embedding"}

    def said(s):
        if s == {"initialized": False}:
            return {"closed": True, "procs": [], "docs": 0, "made": 0, "formats": True}
        st = {cls.get(x["name"], x["name"]): x["stats"] for x in s["processors"]}
        return {"closed": s["initialized"] is not True, "procs": [cls.get(x["name"], x["name"]) for x in s["processors"]],
                "docs": st.get("cleaning", {}).get("documents_processed", 0), "made": st.get("chunking", {}).get("chunks_created", 0),
                "formats": sorted(s["supported_formats"]) == sorted(p.get_supported_formats())
                and sorted(s["parser_info"]["supported_formats"]) == sorted(s["supported_formats"])
                and [n in parsers for n in ("text", "office", "pdf")] == [x in s["supported_formats"] for x in (".txt", ".docx", ".pdf")]
                and sorted(n for n, x in s["parser_info"]["parsers"].items() if x["available"]) == sorted(parsers)}

    def look():
        w.obs(p.get_pipeline_info, said)
    look()
    w.call("init", p.initialize, procs=names)
    for _ in range(8):
        r = rng.random()
        if r < 0.7:
            t = rng.choice(TEXTS)
            if rng.random() < 0.3:
                path = os.path.join(w.path, "f.txt")
                open(path, "w", encoding="utf-8").write(t)
                out, e = w.call("doc", lambda: p.process_document(path))
            else:
                out, e = w.call("doc", lambda: p.process_text(t))
            if "cleaning" in names and out is not None:
                w.ev.append({"op": "clean", "r": "ok", "before": 0, "after": 0})
            if "chunking" in names and out is not None:
                w.ev.append({"op": "chunk", "r": "ok", "before": 0, "made": len(out["chunks"])})
        elif r < 0.75:
            w.call("close", p.close)
            look()
            return w.done()
        else:
            look()
    look()
    return w.done()


FAMILIES = {"stores": storage, "persistence": persistence, "cleaning": cleaning, "chunking": chunking, "embedding": embedding,
            "indices": index, "quantizers": quantizer, "pipelines": pipeline}

"""Drives the factory functions and records traces for TrFactory."""
import contextlib
import copy
import io
import os
import pathlib
import shutil

import numpy as np

import core
import stub_models
import valori_env  # noqa: F401

stub_models.install()
import valori  # noqa: E402
from valori import configs, factory  # noqa: E402

TYPES = ["flat", "hnsw", "ivf", "lsh", "annoy"]
CLASSES = {"FlatIndex": "flat", "HNSWIndex": "hnsw", "IVFIndex": "ivf", "LSHIndex": "lsh", "AnnoyIndex": "annoy",
           "MemoryStorage": "memory", "DiskStorage": "disk", "HybridStorage": "hybrid"}
# parameter -> how it is spelled in configurations
PARAMS = {"flat": {"metric": "metric"},
          "hnsw": {"metric": "metric", "m": "M", "ef_construction": "ef_construction", "ef_search": "ef_search"},
          "ivf": {"metric": "metric", "n_clusters": "n_clusters", "n_probes": "n_probes"},
          "lsh": {"metric": "metric", "num_hash_tables": "num_hash_tables", "hash_size": "hash_size",
                  "num_projections": "num_projections", "threshold": "threshold"},
          "annoy": {"metric": "metric", "num_trees": "num_trees", "search_k": "search_k"}}
ALIAS = {"M": "m"}
PUBLISHED = {c: copy.deepcopy(getattr(configs, c.upper() + "_CONFIGS"))
             for c in ("index", "storage", "document", "embedding", "application", "performance")}
TEMPLATES = copy.deepcopy(factory.TEMPLATES)


def flat_cfg(cfg):
    return {ALIAS.get(k, k): str(v) for k, v in cfg.items() if k != "description"}


def params(index):
    """The effective parameters of an index."""
    kind = CLASSES.get(type(index).__name__, type(index).__name__)
    st = index.get_stats()
    return kind, {p: str(st.get(p, getattr(index, p, "missing"))) for p in PARAMS.get(kind, {})}


def tables():
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    t = {n: {"idx": v["index_type"], "stor": v["storage_type"], "cfg": flat_cfg(v.get("index_config", {}))}
         for n, v in TEMPLATES.items()}
    d = {}
    for c in (FlatIndex, HNSWIndex, IVFIndex, LSHIndex, AnnoyIndex):
        k, p = params(c({}))
        d[k] = p
    names = {c: ["%s|%s|%s" % (c, sub, n) for sub, ns in (v if c == "index" else {"": v}).items() for n in ns]
             for c, v in PUBLISHED.items()}
    return {"templates": t, "defaults": d, "names": names}


def fields(x):
    """An empty record must stay a function for TLC."""
    return x if x else []


class FRun:
    def __init__(self, rng):
        self.rng, self.dir = rng, core.fresh_dir("fac")
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        t = tables()
        for v in t["templates"].values():
            v["cfg"] = fields(v["cfg"])
        self.trace = [{"op": "reset", "tabs": t}]
        self.nd = 0

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, e, f):
        out = None
        try:
            out = f()
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
        self.trace.append(e)
        return out

    # ------------------------------------------------------------ requests
    def cfg(self, kind):
        rng = self.rng
        full = {"flat": {"metric": ["cosine", "euclidean"]},
                "hnsw": {"metric": ["cosine", "euclidean"], rng.choice(["M", "m"]): [4, 8, 32], "ef_construction": [20, 100],
                         "ef_search": [10, 20, 64]},
                "ivf": {"metric": ["cosine", "euclidean"], "n_clusters": [2, 3, 50], "n_probes": [1, 5, 50]},
                "lsh": {"metric": ["cosine", "euclidean"], "num_hash_tables": [1, 4], "hash_size": [2, 8, 30],
                        "num_projections": [8, 40], "threshold": [0.0, 0.25, 0.5]},
                "annoy": {"metric": ["angular", "euclidean"], "num_trees": [1, 3, 30], "search_k": [-1, 500]}}.get(kind, {"metric": ["cosine"]})
        return {k: rng.choice(v) for k, v in full.items() if rng.random() < 0.6}

    def storage_kw(self, kw, stor):
        self.nd += 1
        d = os.path.join(self.dir, "data%d" % self.nd)
        if stor == "disk":
            kw["storage_config"] = {"data_dir": d}
            return d
        if stor == "hybrid":
            kw["storage_config"] = {"memory": {}, "disk": {"data_dir": d}, "memory_limit": self.rng.choice([0, 2, 100])}
            return d
        return ""

    def observe(self, e, client):
        k, p = params(client.index)
        st = client.storage_backend
        s = CLASSES.get(type(st).__name__, type(st).__name__)
        d = ""
        if s == "disk":
            d = str(st.data_dir)
        elif s == "hybrid":
            d = str(st.disk_storage.data_dir)
        e["got"] = {"idx": k, "stor": s, "dir": d, "par": p}
        try:
            e["open"] = client.get_stats()["index"].get("initialized") is True
        except Exception:  # noqa: BLE001
            e["open"] = False

    def create(self, how, name="", idx="", stor="", cfg=None, n=None, d=None, use=None):
        rng = self.rng
        kw, given = {}, copy.deepcopy(cfg)
        if idx:
            kw["index_type"] = idx
        if stor:
            kw["storage_type"] = stor
        if cfg is not None:
            kw["index_config"] = cfg
        if n is not None:
            kw["num_vectors"] = n
        if d is not None:
            kw["dimension"] = d
        if use is not None:
            kw["use_case"] = use
        real = stor
        if how == "template" and not stor and name in TEMPLATES:
            real = TEMPLATES[name]["storage_type"]
        e = {"op": "create", "how": how, "name": name, "idx": idx, "stor": stor, "hascfg": cfg is not None,
             "cfg": fields(flat_cfg(cfg or {})), "rec": {"idx": "", "cfg": []}, "open": False, "dir": self.storage_kw(kw, real)}
        if how == "plain":
            e["stor"] = stor or "memory"
            from valori.utils.helpers import get_recommended_index_config
            r = get_recommended_index_config(n or 0, d or 0, use or "balanced")
            e["rec"] = {"idx": r["type"], "cfg": fields(flat_cfg(r["config"]))}
            f = lambda: valori.create_vector_db(**kw)  # noqa: E731
        elif how == "template":
            f = lambda: valori.create_from_template(name, **kw)  # noqa: E731
        else:
            e["stor"] = stor or "memory"
            e["idx"] = idx or "annoy"
            pipe = []

            size, over = rng.choice([None, 20, 50, 90, 200]), rng.choice([None, 0, 10, 15])
            if size and over is None:
                over = 0
            if size is not None:
                kw["chunk_size"] = size
            if over is not None:
                kw["chunk_overlap"] = over
            model = rng.choice([None, "small", "wide"])
            if model:
                kw["embedding_model"] = model

            def f():
                c, p = valori.create_document_db(**kw)
                pipe.append(p)
                return c
        client = self.rec(e, f)
        if how == "document" and pipe:
            self.doc(pipe[0], size or 1000, 100 if over is None else over, model or stub_models.DEFAULT)
        if client is not None:
            self.observe(e, client)
            if cfg is not None and cfg != given:
                e["open"] = False           # the argument was changed
        return client

    def doc(self, pipe, size, over, model):
        """The pipeline of a document database at work on a text."""
        from valori.processors.chunking import ChunkingProcessor
        rng = self.rng
        words = [rng.choice(["Alpha", "beta", "Gamma two", "\u0416uk", "Fish & chips", "n0."]) for _ in range(rng.choice([1, 5, 30, 60, 500, 800]))]
        sents, raw = [], []
        while words:
            n = rng.randint(1, 6)
            ws, words = words[:n], words[n:]
            sents.append(" ".join(ws) + ".")
            raw.append(rng.choice([" ", "  "]).join("<b>%s</b>" % w if rng.random() < 0.2 else w for w in ws) + ".")
        clean = " ".join(sents)
        source = rng.choice([" ", "  ", "\n\n", "\n"]).join(raw)
        e = {"op": "doc", "size": size, "over": over, "clean": False, "chunks": [], "want": [], "vecs": [], "again": -1, "n": 0}

        def f():
            ref = ChunkingProcessor({"strategy": "semantic", "chunk_size": size, "chunk_overlap": over})
            ref.initialize()
            no = {}
            e["want"] = [no.setdefault(c["text"], len(no) + 1) for c in ref.process({"text": clean, "metadata": {}})["chunks"]]
            if rng.random() < 0.5:
                path = os.path.join(self.dir, "d%d.txt" % len(self.trace))
                with open(path, "w", encoding="utf-8") as h:
                    h.write(source)
                work = lambda: pipe.process_document(path)  # noqa: E731
            else:
                work = lambda: pipe.process_text(source)  # noqa: E731
            r = work()
            e["clean"] = r["text"] == clean
            if not e["clean"]:
                e["x_"] = [source, r["text"], clean]
            e["chunks"] = [no.get(c["text"], 0) for c in r["chunks"]]
            for c, v in zip(r["chunks"] + [{"text": r["text"]}], list(r["chunk_embeddings"]) + [r["embedding"]]):
                t = stub_models.vector(c["text"], model)
                e["vecs"].append(bool(np.allclose(np.asarray(v), t / np.linalg.norm(t), atol=1e-5)))
            n = len(stub_models.LOG)
            work()
            e["again"] = len(stub_models.LOG) - n
        self.rec(e, f)
        pipe.close()

    def use(self, client):
        rng = self.rng
        kind, p = params(client.index)
        dim, n, k = rng.choice([2, 4, 7]), rng.choice([1, 2, 5]), rng.choice([5, 10])
        vs = np.random.RandomState(rng.randint(0, 2**31 - 1)).normal(size=(n, dim)).astype("f4")
        e = {"op": "use", "n": n, "k": k, "ids": [], "found": [], "count": -1}

        def f():
            ids = client.insert(vs.copy(), [{"i": i} for i in range(n)])
            if hasattr(client.index, "build"):
                client.index.build()
            e["ids"] = [str(x) for x in ids]
            st = client.get_stats()["index"]
            e["count"] = int(st.get("vector_count", st.get("num_vectors", -1)))
            e["found"] = [[str(r["id"]) for r in client.search(v, k)] for v in vs]
        self.rec(e, f)

    def recommend(self):
        from valori.utils.helpers import get_recommended_index_config
        rng = self.rng
        n = rng.choice([0, 1, 999, 1000, 1001, 50000, 99999, 100000, 100001, 10**6])
        d = rng.choice([0, 1, 383, 384, 385, 768, 769, 1000, 1001, 4096])
        u = rng.choice(["speed", "accuracy", "memory", "balanced"])
        s = rng.choice(["memory", "disk", "hybrid"])
        e = {"op": "recommend", "n": n, "d": d, "wantstor": s, "a": {"idx": ""}, "b": {"idx": ""}, "stor": ""}

        def f():
            a = get_recommended_index_config(n, d, u)
            b = configs.get_recommended_config(n, d, u, s)
            e["a"]["idx"], e["b"]["idx"], e["stor"] = a["type"], b["index"]["type"], b["storage"]["type"]
            return a, b
        out = self.rec(e, f)
        if out:
            a, b = out
            r = b["index"] if rng.random() < 0.6 else a
            c = self.create("plain", idx=r["type"], cfg=r["config"])
            if c is not None:
                self.use(c)
                c.close()
            spoil(a)
            spoil(b)

    def get(self, cat=None, name=None):
        rng = self.rng
        cat = cat or rng.choice(list(PUBLISHED) + ["nothing"])
        if cat == "index":
            pool = {n: c for sub in PUBLISHED["index"].values() for n, c in sub.items()}
        else:
            pool = PUBLISHED.get(cat, {})
        name = name or rng.choice(list(pool) + ["unknown"])
        e = {"op": "get", "cat": cat, "name": name, "known": name in pool, "same": False}
        out = self.rec(e, lambda: configs.get_config(cat, name))
        if out is not None:
            e["same"] = out == pool.get(name)
        return out

    def texts(self):
        rng = self.rng
        n = rng.choice([1, 2, 5])
        ts = rng.sample(["alpha", "beta two", "gamma", "delta\n4", "e", "\xdcmlaut", "g g g"], n)
        idx = rng.choice(TYPES)
        which = rng.choice(["semantic", "hybrid"])
        kw = {"index_type": idx}
        if rng.random() < 0.4:
            kw["index_config"] = {k: v for k, v in self.cfg(idx).items() if k not in ("threshold",)}
        elif which == "hybrid" and idx == "annoy":
            kw["index_config"] = {}
        e = {"op": "texts", "which": which, "n": n, "found": [], "count": -1, "meta": False}
        docs = [{"text": t, "i": i, "tag": "t%d" % i} for i, t in enumerate(ts)]
        for d in docs:
            # fields of the document that the library has values for, too
            for key in ("text_length", "model_used", "embedding_dimension", "doc_id"):
                if rng.random() < 0.2:
                    d[key] = rng.choice(["mine", 5, None])
        model = rng.choice([stub_models.DEFAULT, "small", "wide"])
        if model != stub_models.DEFAULT or rng.random() < 0.5:
            kw["embedding_model"] = model
        before = copy.deepcopy(docs)

        def f():
            if which == "semantic":
                c = valori.create_semantic_search_db(list(ts), **kw)
            else:
                c = valori.create_hybrid_search_db(docs, **kw)
            if hasattr(c.index, "build"):
                c.index.build()
            st = c.get_stats()["index"]
            e["count"] = int(st.get("vector_count", st.get("num_vectors", -1)))
            e["meta"] = docs == before
            for i, t in enumerate(ts):
                rs = [r for r in c.search(stub_models.vector(t, model), 5) if r["metadata"].get("text") == t]
                e["found"].append(i + 1 if len(rs) == 1 else 0)
                m = {"text": t, "text_length": len(t), "model_used": model, "embedding_dimension": stub_models.DIMS[model]}
                if which == "hybrid":
                    m.update(docs[i], doc_id=i)
                if rs and rs[0]["metadata"] != m:
                    e["meta"] = False
        self.rec(e, f)

    def images(self):
        """A database of picture files, some of which cannot be read."""
        stub_models.install_clip()
        rng = self.rng
        n = rng.choice([0, 1, 2, 4])
        names = ["pic%d" % i if rng.random() < 0.7 else "" for i in range(n)]
        paths = []
        for i, p in enumerate(names):
            f = os.path.join(self.dir, rng.choice(["p%d_%d.png", "\xfc %d %d.jpg"]) % (i, rng.randrange(10**6)))
            paths.append(rng.choice([str, pathlib.Path])(f))
            if p or rng.random() < 0.6:
                with open(f, "wb") as h:
                    h.write(b"PIC " + p.encode() if p else rng.choice([b"", b"junk"]))
        good = [i for i in range(n) if names[i]]
        idx = rng.choice(TYPES)
        kw = {"index_type": idx}
        if rng.random() < 0.4:
            kw["index_config"] = {k: v for k, v in self.cfg(idx).items() if k not in ("threshold",)}
        e = {"op": "texts" if good else "bad", "which": "images", "n": len(good), "found": [], "count": -1, "meta": False}

        def f():
            with contextlib.redirect_stdout(io.StringIO()):
                c = valori.create_image_search_db(list(paths), **kw)
            if hasattr(c.index, "build"):
                c.index.build()
            st = c.get_stats()["index"]
            e["count"] = int(st.get("vector_count", st.get("num_vectors", -1)))
            e["meta"] = True
            for j, i in enumerate(good):
                v = stub_models.picture(names[i])
                v = v / np.linalg.norm(v)
                rs = [r for r in c.search(v, 5) if r["metadata"].get("image_path") == str(paths[i])]
                e["found"].append(j + 1 if len(rs) == 1 else 0)
                if rs and rs[0]["metadata"]["image_id"] != i:
                    e["meta"] = False
        self.rec(e, f)

    def list(self):
        cat = self.rng.choice([None] + list(PUBLISHED))
        e = {"op": "list", "cat": cat or "", "listed": []}

        def f():
            out = configs.list_configs(cat)
            if cat == "index":
                out = {"index": out}
            for c, names in out.items():
                for sub, ns in (names if isinstance(names, dict) else {"": names}).items():
                    e["listed"] += ["%s|%s|%s" % (c, sub, n) for n in ns]
            return out
        out = self.rec(e, f)
        if out is not None:
            spoil(out)

    def bad(self):
        f = self.rng.choice([lambda: valori.create_image_search_db([], "resnet"),
                             lambda: configs.list_configs("nothing")])
        self.rec({"op": "bad"}, f)

    def step(self):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            idx = rng.choice(TYPES + [""])
            cfg = None
            if rng.random() < 0.5 and idx:
                cfg = self.cfg(idx)
            elif not idx and rng.random() < 0.4:
                cfg = {}
            n, d, u = rng.choice([None, 0, 10, 999, 1000, 5000, 150000]), rng.choice([None, 3, 2000]), \
                rng.choice([None, "speed", "accuracy", "memory", "balanced"])
            if not idx and cfg == {}:
                from valori.utils.helpers import get_recommended_index_config
                cfg = self.cfg(get_recommended_index_config(n or 0, d or 0, u or "balanced")["type"])
            c = self.create("plain", idx=idx, stor=rng.choice(["", "memory", "disk", "hybrid"]), cfg=cfg, n=n, d=d, use=u)
        elif r < 0.6:
            name = rng.choice(list(TEMPLATES))
            idx = rng.choice(["", "", "", rng.choice(TYPES)])
            cfg = self.cfg(idx or TEMPLATES[name]["index_type"]) if rng.random() < 0.3 else None
            c = self.create("template", name=name, idx=idx, stor=rng.choice(["", "memory", "disk", "hybrid"]), cfg=cfg)
        elif r < 0.68:
            idx = rng.choice(TYPES + [""])
            c = self.create("document", idx=idx, stor=rng.choice(["", "memory", "hybrid"]),
                            cfg=self.cfg(idx or "annoy") if rng.random() < 0.5 else None)
        elif r < 0.76:
            how = rng.choice(["idx", "stor", "name"])
            c = self.create("template" if how == "name" else "plain", name="no such template",
                            idx=rng.choice(["Flat", "faiss"]) if how == "idx" else "flat",
                            stor=rng.choice(["ssd", "Memory"]) if how == "stor" else "memory")
        elif r < 0.86:
            return self.recommend()
        elif r < 0.93:
            out = self.get()
            if out is not None:
                spoil(out)
                self.trace.append({"op": "spoil", "r": "ok"})
            return
        elif r < 0.95:
            return self.list()
        elif r < 0.97:
            return self.texts()
        elif r < 0.99:
            return self.images()
        else:
            return self.bad()
        if c is not None:
            if rng.random() < 0.7:
                self.use(c)
            if rng.random() < 0.5:
                spoil(c.index.config)
            c.close()


def spoil(x):
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            if not isinstance(x[k], (dict, list)):
                x[k] = "SPOILED"
        x["more"] = 1
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("SPOILED")


def random_run(rng, n=8):
    h = FRun(rng)
    try:
        for _ in range(n):
            h.step()
    finally:
        h.close()
    return h.trace


def replay(rng, ops):
    """A behaviour of FactoryGen on the real tables."""
    h = FRun(rng)
    try:
        t1, t2 = rng.sample(list(TEMPLATES), 2)
        cat = rng.choice(list(PUBLISHED))
        pool = [n for s in PUBLISHED["index"].values() for n in s] if cat == "index" else list(PUBLISHED[cat])
        names = {"t1": t1, "t2": t2}
        c1 = rng.choice(pool)
        held = {}
        for o in ops:
            n = o["n"]
            if o["op"] == "take":
                if n in names:
                    c = h.create("template", name=names[n])
                    held[n] = c.index.config if c is not None else {}
                else:
                    held[n] = h.get(cat, c1) or {}
            elif o["op"] == "spoil":
                spoil(held[n])
                h.trace.append({"op": "spoil", "r": "ok"})
            else:
                held.pop(n, None)
    finally:
        h.close()
    return h.trace

"""Drives the processing pipeline and records traces for TrPipeline."""
import contextlib
import io
import os
import shutil

import core
import numpy as np
import stub_models
import valori_env  # noqa: F401

CALLS = []
STAGE = {"clean": "CleaningProcessor", "chunk": "ChunkingProcessor", "embed": "EmbeddingProcessor"}
PARSER = {"TextParser": "text", "OfficeParser": "office", "PDFParser": "pdf"}
_intern = {}
_done = False


def canon(x):
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, tuple(float(v) for v in x.ravel()))
    if isinstance(x, (np.integer, np.floating)):
        return x.item()
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((str(k), canon(v)) for k, v in x.items() if k != "pipeline_metadata"))
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(canon(v) for v in x)
    return (type(x).__name__, str(x))


def fp(x):
    return _intern.setdefault(repr(canon(x)), len(_intern) + 1)


def install():
    """Record the calls of the stages; documents with the word x<stage>x fail in it."""
    global _done
    stub_models.install()
    if _done:
        return
    _done = True
    from valori.parsers import OfficeParser, PDFParser, TextParser
    from valori.processors.chunking import ChunkingProcessor
    from valori.processors.cleaning import CleaningProcessor
    from valori.processors.embedding import EmbeddingProcessor

    def wrap(cls, meth, stage):
        real = getattr(cls, meth)

        def call(self, data, *a, **k):
            c = {"s": stage, "in": fp(str(data) if stage == "parse" else data), "out": 0, "r": "err", "emb": 0, "meta": 0,
                 "path_": str(data) if stage == "parse" else "", "by_": PARSER.get(type(self).__name__, "")}
            CALLS.append(c)
            if stage != "parse" and "x%sx" % stage in str(data.get("text", "")):
                raise ValueError("planned failure in " + stage)
            r = real(self, data, *a, **k)
            c["out"], c["r"] = fp(r), "ok"
            c["emb"], c["meta"] = fp(r.get("embedding")), fp(r.get("metadata"))
            return r
        setattr(cls, meth, call)
    for cls in (TextParser, OfficeParser, PDFParser):
        wrap(cls, "parse", "parse")
    wrap(CleaningProcessor, "process", "clean")
    wrap(ChunkingProcessor, "process", "chunk")
    wrap(EmbeddingProcessor, "process", "embed")


def stage_configs(rng):
    return {"clean": rng.choice([{}, {"lowercase": True}, {"remove_special_chars": True, "remove_html": False}]),
            "chunk": rng.choice([{}, {"chunk_size": 20, "chunk_overlap": 5, "min_chunk_size": 1}, {"strategy": "fixed_size", "chunk_size": 7, "chunk_overlap": 0, "min_chunk_size": 1}]),
            "embed": rng.choice([{}, {"model_name": "small"}, {"cache_embeddings": False, "normalize_embeddings": False}, {"model_type": "openai"}])}


WORDS = ["Some  text.", "<b>Bold</b> claim!", "xcleanx", "xchunkx", "xembedx", "BOOM", "", "   ", "A longer text. With sentences.\n\nAnd paragraphs, " * 4,
         "caf\u00e9 &amp; co", "one", "ZERO", "<p></p>"]
KEYS = {"clean": "cleaning", "chunk": "chunking", "embed": "embedding"}


class World:
    def __init__(self, rng):
        from valori.processors.pipeline import ProcessingPipeline
        install()
        self.rng = rng
        self.dir = core.fresh_dir("pipe")
        self.conf = stage_configs(rng)
        self.p = ProcessingPipeline({})
        self.trace = [{"op": "reset"}]
        self.files = {}
        self.nfile = 0
        for _ in range(rng.randint(4, 8)):
            self.add_file()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def add_file(self):
        rng = self.rng
        ext = rng.choice([".txt", ".txt", ".txt", ".md", ".TXT", ".docx", ".xyz", "", ".txt.bak", ".DOCX"])
        path = os.path.join(self.dir, "f%d%s" % (self.nfile, ext))
        self.nfile += 1
        t = " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2])))
        if rng.random() < 0.7:
            for w in ("xcleanx", "xchunkx", "xembedx", "BOOM"):
                t = t.replace(w, "fine")
        kind = rng.random()
        if kind < 0.1:
            pass                                     # missing
        elif kind < 0.15:
            os.mkdir(path)
        elif ext == ".docx" and rng.random() < 0.7:
            import docx
            d = docx.Document()
            d.add_paragraph(t)
            d.save(path)
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(t)
        low = ext.lower()
        self.files[path] = ["text"] if low in (".txt", ".md") else ["office"] if low == ".docx" else []

    # ------------------------------------------------------------ operations
    def configure(self, conf, pars, broken=""):
        procs = {KEYS[s]: dict(self.conf[s]) for s in self.rng.sample(sorted(conf), len(conf))}
        if broken:
            procs[KEYS[broken]] = {"model_type": "no such"} if broken == "embed" else None
        cfg = {"processors": procs, "parsers": {n: {"chunk_size": 15, "chunk_overlap": 3} for n in pars}}
        if not procs and self.rng.random() < 0.5:
            del cfg["processors"]
        if not pars and self.rng.random() < 0.5:
            del cfg["parsers"]
        return cfg

    def init(self, conf, pars, broken=""):
        e = {"op": "init", "conf": sorted(conf), "pars": sorted(pars), "broken": bool(broken)}
        self.p.config.clear()
        self.p.config.update(self.configure(conf, pars, broken))
        self.simple(e, self.p.initialize)

    def simple(self, e, f):
        try:
            f()
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
        self.trace.append(e)

    def stop(self):
        parts = list(self.p.processors) + [x for x in [self.p.parser_registry] if x]
        e = {"op": "close", "quiet": True}
        self.simple(e, self.p.close)
        for x in parts:
            # what the pipeline was made of is closed with it
            try:
                if hasattr(x, "get_supported_formats"):
                    e["quiet"] = e["quiet"] and x.get_supported_formats() == []
                else:
                    x.process({"text": "one"})
                    e["quiet"] = False
            except Exception:  # noqa: BLE001
                pass
        del CALLS[:]

    def formats(self):
        self.trace.append({"op": "formats", "none": self.p.get_supported_formats() == []})

    def content(self, path):
        try:
            return open(path, "rb").read()
        except OSError:
            return None

    def item(self, path, parser):
        readers = self.files[path]
        return {"in": fp(path), "key": fp(["file", path, repr(self.content(path))]), "calls": [], "r": "err", "res": 0, "names": [],
                "used": "", "parsedby": "", "readers": readers}

    def finish(self, x, res):
        """The result of one item."""
        if "error" in res:
            return
        x["r"], x["res"] = "ok", fp(res)
        m = res["pipeline_metadata"]
        inv = {v: k for k, v in STAGE.items()}
        x["names"] = [inv.get(n, n) for n in m["processors_used"]]
        u = m.get("parser_used", "")
        x["used"] = PARSER.get(u, u)

    @staticmethod
    def share(items, paths):
        """Attribute the recorded calls to the items, in order."""
        i = 0
        for x, p in zip(items, paths):
            if i < len(CALLS) and CALLS[i]["s"] == "parse" and CALLS[i]["path_"] == p:
                x["parsedby"] = CALLS[i]["by_"]
                x["calls"].append(CALLS[i])
                i += 1
                while i < len(CALLS) and CALLS[i]["s"] != "parse":
                    x["calls"].append(CALLS[i])
                    i += 1
        if items:
            items[-1]["calls"] += CALLS[i:]

    def call(self, e, paths, f, use):
        from valori.exceptions import ValoriError
        del CALLS[:]
        e.update(proc=True, lined=True, rows=[])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = f()
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            r = None
            e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
            e["proc"] = isinstance(x, ValoriError)
        if paths is None:
            e["items"][0]["calls"] = list(CALLS)
        else:
            self.share(e["items"], paths)
        if e["r"] == "ok":
            use(r)
        self.trace.append(e)

    def path_arg(self, p):
        from pathlib import Path
        return Path(p) if self.rng.random() < 0.3 else p

    def document(self):
        path = self.rng.choice(list(self.files))
        parser = self.rng.choice(["", "", "", "text", "office", "nope"])
        x = self.item(path, parser)
        arg = self.path_arg(path)
        e = {"op": "run", "how": "file", "parser": parser, "items": [x]}
        self.call(e, [path], lambda: self.p.process_document(arg, parser or None), lambda r: self.finish(x, r))

    def text(self):
        t = self.rng.choice(WORDS)
        meta = self.rng.choice([None, {}, {"a": [1]}, {"text": "other"}])
        start = fp({"text": t, "metadata": meta or {}, "structure": {"type": "raw_text"}})
        x = {"in": start, "key": start, "calls": [], "r": "err", "res": 0, "names": [], "used": "", "parsedby": "", "readers": []}
        e = {"op": "run", "how": "text", "parser": "", "items": [x]}
        self.call(e, None, lambda: self.p.process_text(t, meta), lambda r: self.finish(x, r))

    def batch(self):
        paths = [self.rng.choice(list(self.files)) for _ in range(self.rng.choice([0, 1, 2, 3, 5, 8]))]
        args = [self.path_arg(p) for p in paths]
        items = [self.item(p, "") for p in paths]
        e = {"op": "run", "how": "batch", "parser": "", "items": items}

        def use(rs):
            e["lined"] = len(rs) == len(items)
            for x, r, p in zip(items, rs, paths):
                self.finish(x, r)
                e["lined"] = e["lined"] and (r["file_path"] if "error" in r else r["pipeline_metadata"]["file_path"]) == p
        self.call(e, paths, lambda: self.p.batch_process_documents(args), use)

    def vectors(self):
        from valori.utils.helpers import create_vectors_from_files
        paths = [self.rng.choice(list(self.files)) for _ in range(self.rng.choice([0, 1, 2, 4, 7]))]
        parser = self.rng.choice(["", "", "", "text", "nope"])
        args = [self.path_arg(p) for p in paths]
        items = [self.item(p, "") for p in paths]
        e = {"op": "files", "how": "files", "parser": parser, "items": items}
        model = self.rng.choice(["small", "sentence-transformers/all-MiniLM-L6-v2"])

        def use(r):
            vs, ms = r
            for x in items:
                if x["calls"] and x["calls"][-1]["s"] == "embed" and x["calls"][-1]["r"] == "ok":
                    x.update(r="ok", res=x["calls"][-1]["out"], names=["clean", "embed"], used=x["parsedby"])
            e["rows"] = [{"v": fp(v), "m": fp(m)} for v, m in zip(vs, ms)]
            if len(vs) != len(ms) or vs.ndim != 2:
                e["rows"].append({"v": -1, "m": -1})
        self.call(e, paths, lambda: create_vectors_from_files(args, parser or None, model), use)


def random_run(rng, n=22):
    w = World(rng)
    try:
        sub = lambda xs: {x for x in xs if rng.random() < 0.7}  # noqa: E731
        if rng.random() < 0.9:
            w.init(sub(STAGE), {"text"} | sub(["office"]) if rng.random() < 0.8 else sub(["office", "docling"]) - {"docling"})
        for _ in range(n):
            k = rng.random()
            if k < 0.3:
                w.document()
            elif k < 0.5:
                w.text()
            elif k < 0.68:
                w.batch()
            elif k < 0.74:
                w.vectors()
            elif k < 0.8:
                w.formats()
            elif k < 0.88:
                w.init(sub(STAGE), {"text"} | sub(["office"]))
            elif k < 0.93:
                w.init(sub(STAGE), {"text"}, rng.choice(sorted(STAGE)))
            elif k < 0.96:
                w.stop()
            else:
                w.add_file()
    finally:
        w.close()
    return w.trace

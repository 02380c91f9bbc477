"""Drives the parser registry and records traces for TrRegistry."""
import os
import shutil

import core
import valori_env  # noqa: F401

FMT = {"A": [".txt", ".zip"], "B": [".zip", ".Zz"], "C": [], "D": [".txt", ".pdf", ".docx", ".md", ".zip"], "broken": [".txt"]}
STEMS = ["a", "a.b", ".hidden", "A B", "caf\u00e9", "dir.txt/f", "dir.pdf/g", "a..", "..a", "zip", "x.zip", "\u0130"]
CLOSED = []
EXTS = [".txt", ".TXT", ".Md", ".zip", ".ZIP", ".pdf", ".PDF", ".docx", ".xls", ".pptx", ".csv", ".log", ".rst", ".tXt", "", ".", ".txt.",
        ".tx", ".txtt", ".txt ", ".tar.zip", ".txt.pdf", ".pdf.txt", "txt", ".html", ".doc"]


def seq(t):
    return [ord(ch) for ch in t]


def classes():
    from valori.parsers import OfficeParser, PDFParser, TextParser
    from valori.parsers.base import DocumentParser
    from valori.parsers.docling_parser import DoclingParser

    def make(name):
        class Custom(DocumentParser):
            def initialize(self):
                if name == "broken":
                    raise RuntimeError("cannot start")
                self._initialized = True

            def close(self):
                super().close()
                CLOSED.append(self.config["tag"])

            def parse(self, file_path):
                return {"text": self.config["tag"], "metadata": {}}

            def get_supported_formats(self):
                return list(FMT[name])

            def can_parse(self, file_path):
                return os.path.splitext(os.path.basename(str(file_path)))[1].lower() in FMT[name]
        Custom.__name__ = "Custom" + name
        return Custom
    r = {n: make(n) for n in FMT}
    r.update({"text": TextParser, "pdf": PDFParser, "office": OfficeParser, "docling": DoclingParser})
    return r


class World:
    def __init__(self, conf):
        from valori.parsers.registry import ParserRegistry
        self.classes = classes()
        self.reg = ParserRegistry({"parsers": {n: {"tag": t} for n, t in conf.items()}})
        self.dir = core.fresh_dir("reg")
        self.trace = [{"op": "reset", "conf": dict(conf)}]
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def do(self, e):
        del CLOSED[:]
        try:
            self.act(e)
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
        e["closed"] = list(CLOSED)
        self.trace.append(e)

    def act(self, e):
        reg, op = self.reg, e["op"]
        if op == "init":
            reg.initialize()
        elif op == "close":
            reg.close()
        elif op == "add":
            self.n += 1
            e["tag"] = "t%d" % self.n
            reg.add_parser(e["name"], self.classes[e["cls"]], {"tag": e["tag"]})
        elif op == "remove":
            reg.remove_parser(e["name"])
        elif op == "get":
            e["got"] = ""
            p = reg.get_parser(self.path(e), e["name"] or None)
            e["got"] = {"cls": next(k for k, c in self.classes.items() if type(p) is c), "tag": p.config["tag"]}
        elif op == "parse":
            e["by"] = ""
            e["exists"] = False
            path = os.path.join(self.dir, self.path(e))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if not os.path.isdir(path) and e.pop("make_"):
                with open(path, "w") as f:
                    f.write("content")
            e["exists"] = os.path.isfile(path)
            try:
                e["by"] = reg.parse_document(path, e["name"] or None)["text"]
            finally:
                if e["exists"]:
                    os.remove(path)
        elif op == "formats":
            e["formats"] = []
            e["formats"] = [seq(x) for x in reg.get_supported_formats()]
        elif op == "info":
            e["avail"], e["unavail"], e["fmts"] = [], [], {}
            ps = reg.get_parser_info()["parsers"]
            e["avail"] = sorted(n for n, v in ps.items() if v["available"])
            e["unavail"] = sorted(n for n, v in ps.items() if not v["available"])
            e["fmts"] = {n: [seq(x) for x in v["supported_formats"]] for n, v in ps.items()}

    @staticmethod
    def path(e):
        return "".join(chr(x) for x in e["path"])


def look(w, rng, names):
    f = rng.choice(STEMS) + rng.choice(EXTS)
    k = rng.random()
    if k < 0.55:
        w.do({"op": "get", "path": seq(f), "name": rng.choice(["", "", "", "none"] + names)})
    elif k < 0.8:
        w.do({"op": "parse", "path": seq(f), "name": rng.choice(["", "", "", "none"] + names), "make_": rng.random() < 0.85})
    elif k < 0.9:
        w.do({"op": "formats"})
    else:
        w.do({"op": "info"})


def replay(rng, names, ops):
    w = World({n: "c" + n for n in names if n in ("text", "pdf", "office", "docling")})
    try:
        for op in ops:
            w.do(dict(op))
            for _ in range(2):
                look(w, rng, names)
            for f in (["a.txt", "a.ZIP", "a.pdf"] if rng.random() < 0.5 else []):
                w.do({"op": "get", "path": seq(f), "name": ""})
    finally:
        w.close()
    return w.trace


def random_run(rng, n=40):
    builtin = ["text", "pdf", "office", "docling"]
    names = builtin + rng.sample(["custom", "x", "zz", "Text", "a.txt", "PDF"], 3)
    w = World({m: "c" + m for m in names if rng.random() < 0.6})
    try:
        for _ in range(n):
            k = rng.random()
            if k < 0.12:
                w.do({"op": "init"})
            elif k < 0.17:
                w.do({"op": "close"})
            elif k < 0.35:
                w.do({"op": "add", "name": rng.choice(names), "cls": rng.choice(["A", "B", "C", "D", "broken", "text", "docling", "office"])})
            elif k < 0.45:
                w.do({"op": "remove", "name": rng.choice(names + ["never"])})
            else:
                look(w, rng, names)
    finally:
        w.close()
    return w.trace

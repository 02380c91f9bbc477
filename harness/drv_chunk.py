"""Drives the chunking processor and the parsers and records traces for TrChunk."""
import copy
import os
import shutil
import signal

import core
import valori_env  # noqa: F401

BIG = 10**9


def seq(t):
    return [-ord(c) if c.isspace() else ord(c) for c in t]


class Stuck(Exception):
    pass


def limited(f, seconds=20):
    """f(), or an error when it does not come to an end."""
    def stop(*a):
        raise Stuck("does not terminate")
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def chunks_of(cs, start=0):
    out = []
    for c in cs:
        out.append({"id": c["id"], "t": seq(c["text"]), "s": c["start_pos"], "e": c["end_pos"],
                    "len": c.get("length", len(c["text"])), "page": c.get("page_number", 0), "wp": c["start_pos"]})
    return out


def run(e, f, arg=None):
    before = copy.deepcopy(arg)
    try:
        out = limited(f)
        e["r"] = "ok"
    except Exception as x:  # noqa: BLE001
        out = None
        e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
    e["intact"] = before == arg
    return out


KIND = {"fixed": "fixed_size", "semantic": "semantic", "sliding": "sliding_window"}


def chunk(kind, text, c, seps=None):
    from valori.processors.chunking import ChunkingProcessor
    cfg = {"strategy": KIND[kind], "chunk_size": c["S"], "chunk_overlap": c["O"], "min_chunk_size": c["m"], "max_chunk_size": c["M"]}
    if kind == "fixed" and c["S"] % 2:
        del cfg["strategy"]
    if seps is not None:
        cfg["separators"] = seps
    data = {"text": text, "metadata": {"k": [1]}, "structure": {"type": "x"}}
    e = {"op": "chunk", "kind": kind, "T": seq(text), "c": c, "chunks": []}

    def f():
        p = ChunkingProcessor(cfg)
        p.initialize()
        if len(text) % 3 == 1:
            p.process({"text": "Another text. " * 9})       # leaves nothing behind
        r = p.process(data)
        e["chunks"] = chunks_of(r["chunks"])
        for c, x in zip(r["chunks"], e["chunks"]):
            m = c["metadata"]
            x["wp"] = m.get("window_position", c["start_pos"])
            if m["strategy"] != m["chunk_type"] or m["strategy"] != KIND[kind]:
                raise RuntimeError("another strategy")
        if len({id(c["metadata"]) for c in r["chunks"]}) != len(r["chunks"]):
            raise RuntimeError("chunks share their metadata")
        if not (r["text"] == text and r["metadata"] == {"k": [1]} and r["structure"] == {"type": "x"}):
            raise RuntimeError("document changed")
    run(e, f, data)
    return e


def bad_config(rng):
    from valori.processors.chunking import ChunkingProcessor
    cfg = rng.choice([{"chunk_size": 0}, {"chunk_size": -5}, {"chunk_size": 10, "chunk_overlap": 10},
                      {"chunk_size": 10, "chunk_overlap": 11}, {"strategy": "sentences"}, {"chunk_size": 50}])

    def f():
        p = ChunkingProcessor(cfg)
        p.initialize()
        p.process({"text": "some text " * 20})
    e = {"op": "badconfig"}
    run(e, f)
    return e


# ------------------------------------------------------------------ texts
def text(rng, n=None):
    n = rng.choice([0, 1, 5, 20, 40, 60, 90]) if n is None else n
    style = rng.choice(["words", "words", "para", "para", "mixed", "solid", "ws", "sent"])
    out = []
    size = 0
    abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789"
    while size < n:
        w = "".join(rng.choice(abc) for _ in range(rng.choice([1, 2, 3, 5, 8, 15]) if style != "solid" else 30))
        if style == "ws" and rng.random() < 0.8:
            w = ""
        if style == "sent" or (style == "mixed" and rng.random() < 0.3):
            w += rng.choice([". ", "! ", "? ", ", ", " "])
        elif style == "para":
            w += rng.choice([" ", " ", "\n\n", "\n\n", "\n\n\n", "\n", "\n\n  ", "\n \n"])
        elif style != "solid":
            w += rng.choice([" ", " ", " ", "  ", "\n", "\t", "\n\n", "   \n\n\n  ", "\u3000", "\xa0"])
        out.append(w)
        size += len(w)
    t = "".join(out)[:n]
    if rng.random() < 0.1:
        t = t.replace("a", "\u00e9").replace("b", "\U0001f600")
    return t


def config(rng, n):
    r = rng.random()
    S = rng.choice([1, 2, 3, 5, 8, 10, 13, 20, 30, max(1, n), max(1, n - 1), n + 1, 50])
    M = rng.choice([BIG, BIG, 2000, S, S + rng.randint(0, 20), max(1, S - rng.randint(0, 10))])
    lim = min(S, M)
    O = rng.choice([0, 0, 1, lim - 1, rng.randint(0, lim - 1), lim // 3])
    O = min(max(O, 0), lim - 1)
    m = rng.choice([0, 1, 1, 1, 2, 5, S // 2]) if r < 0.9 else rng.choice([10, 50])
    return {"S": S, "O": O, "m": m, "M": M}


def random_chunks(rng, n=6):
    tr = [{"op": "reset"}]
    for _ in range(n):
        t = text(rng)
        kind = rng.choice(["fixed", "semantic", "semantic", "sliding"])
        seps = rng.choice([None, None, None, [], [" "], ["\n\n", "\n", " ", ""], ["ab", "."]])
        tr.append(chunk(kind, t, config(rng, len(t)), seps))
    if rng.random() < 0.2:
        tr.append(bad_config(rng))
    return tr


def big(rng):
    """Realistic sizes and the default limits."""
    n = rng.choice([900, 1000, 1001, 2500])
    t = text(rng, n)
    S = rng.choice([200, 500, 1000, 3000])
    c = {"S": S, "O": rng.choice([0, 20, 100]), "m": 50, "M": 2000}
    return [{"op": "reset"}, chunk(rng.choice(["fixed", "semantic", "sliding"]), t, c)]


# ---------------------------------------------------------------- parsers
class FakePage:
    def __init__(self, t):
        self.t = t

    def extract_text(self):
        return self.t


class FakeReader:
    pages_text = []

    def __init__(self, f):
        self.pages = [FakePage(t) for t in FakeReader.pages_text]
        self.metadata = None


def parsed(rng, n=4):
    tr = [{"op": "reset"}]
    d = core.fresh_dir("prs")
    try:
        for _ in range(n):
            tr.append(parse(rng, d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return tr


class Element:
    def __init__(self, i, text, label, **kw):
        self.id = i
        if text is not None:
            self.text = text
        if label is not None:
            self.label = label
        self.__dict__.update(kw)


class FakeConverter:
    """Stands in for Docling, which is not installed here."""
    elements = []

    def convert(self, path):
        return self

    def iterate_items(self):
        return iter(FakeConverter.elements)


def docling(rng, d):
    import sys
    import types
    from valori.parsers.docling_parser import DoclingParser
    mods = {n: types.ModuleType(n) for n in ("docling", "docling.datamodel", "docling.datamodel.base_models",
                                             "docling.document_converter")}
    mods["docling.datamodel.base_models"].InputFormat = object
    mods["docling.document_converter"].DocumentConverter = FakeConverter
    old = {n: sys.modules.get(n) for n in mods}
    sys.modules.update(mods)
    els, desc = [], []
    for i in range(rng.choice([0, 1, 2, 5, 9, 14])):
        t = rng.choice([None, "", " ", " \n"]) if rng.random() < 0.25 else text(rng, rng.choice([1, 3, 8, 20, 45]))
        kind = rng.choice([None, "paragraph", "text", "table", "Table", "figure", "FIGURE", "document_table"])
        els.append(Element(i, t, kind))
        k = (kind or "").lower()
        desc.append({"t": seq((t or "").strip()), "tab": "table" in k, "fig": "figure" in k, "id": i})
    FakeConverter.elements = els
    S = rng.choice([1, 2, 5, 10, 20, 30, 60, 1000])
    cfg = {"chunk_size": S}
    for o in ("extract_tables", "extract_figures"):
        if rng.random() < 0.5:
            cfg[o] = rng.random() < 0.5
    path = os.path.join(d, "f" + rng.choice([".pdf", ".DOCX", ".html"]))
    open(path, "wb").write(b"x")
    e = {"op": "elements", "els": desc, "c": {"S": S}, "tables": cfg.get("extract_tables", True),
         "figures": cfg.get("extract_figures", True), "T": [], "chunks": [], "ntext": -1, "tabs": [], "figs": [],
         "ntabs": -1, "nfigs": -1}

    def f():
        p = DoclingParser(cfg)
        p.initialize()
        r = p.parse(path)
        m, s = r["metadata"], r["structure"]
        e["T"] = seq(r["text"])
        e["chunks"] = [{"id": c["id"], "t": seq(c["text"]), "a": c["start_element"], "b": c["end_element"]} for c in r["chunks"]]
        e["tabs"], e["figs"] = [x["table_id"] for x in m["tables"]], [x["figure_id"] for x in m["figures"]]
        same = m["num_text_elements"] == s["text_elements"] and m["num_tables"] == s["tables"] and \
            m["num_figures"] == s["figures"]
        e["ntext"], e["ntabs"], e["nfigs"] = (m["num_text_elements"], m["num_tables"], m["num_figures"]) if same else (-1, -1, -1)
    try:
        run(e, f)
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    os.remove(path)
    return e


def parse(rng, d):
    if rng.random() < 0.25:
        return docling(rng, d)
    return parse_file(rng, d)


def parse_file(rng, d):
    import PyPDF2
    from valori.parsers import OfficeParser, PDFParser, TextParser
    kind = rng.choice(["text", "text", "pdf", "docx", "pptx", "xlsx"])
    t = text(rng, rng.choice([0, 1, 10, 30, 60, 100]))
    if kind not in ("text", "pdf"):
        t = "".join(ch for ch in t if ch.isascii())
    S = rng.choice([1, 2, 5, 10, 20, 30, max(1, len(t)), len(t) + 1, max(1, len(t) - 1)])
    O = rng.choice([0, 1, S - 1, S // 3, rng.randint(0, S - 1)])
    cfg = {"chunk_size": S, "chunk_overlap": O}
    pages = []
    if kind == "text":
        enc = "utf-8" if rng.random() < 0.5 or not t.isascii() else "auto"
        path = os.path.join(d, "f" + rng.choice([".txt", ".md", ".LOG"]))
        with open(path, "wb") as f:
            f.write(t.replace("\n", rng.choice(["\n", "\r\n"])).encode("utf-8"))
        cfg["encoding"] = enc
        cls, want = TextParser, t
    elif kind == "pdf":
        path = os.path.join(d, "f.pdf")
        open(path, "wb").write(b"%PDF")
        ps = [t] + [text(rng, rng.choice([0, 3, 20])) for _ in range(rng.choice([0, 1, 4]))]
        rng.shuffle(ps)
        FakeReader.pages_text = ps
        PyPDF2.PdfReader = FakeReader
        pages = [{"no": i + 1, "len": len(p)} for i, p in enumerate(ps) if p.strip()]
        cls, want = PDFParser, "\n\n".join(p for p in ps if p.strip())
    else:
        cls = OfficeParser
        path = os.path.join(d, "f." + kind)
        parts = [p.strip() for p in t.split("\n") if p.strip()]
        if kind == "docx":
            import docx
            doc = docx.Document()
            for p in t.split("\n"):
                doc.add_paragraph(p)
            doc.save(path)
            want = None
        elif kind == "pptx":
            import pptx
            pr = pptx.Presentation()
            for p in parts[:4]:
                s = pr.slides.add_slide(pr.slide_layouts[5])
                s.shapes.title.text = p
            pr.save(path)
            want = "\n\n".join("Slide %d: %s" % (i + 1, p) for i, p in enumerate(parts[:4]))
            want = None if any("\t" in p for p in parts) else want
        else:
            import openpyxl
            wb = openpyxl.Workbook()
            rows = [p.split(" ") for p in parts[:5]]
            for r in rows:
                wb.active.append([x or None for x in r])
            wb.save(path)
            want = None
    e = {"op": "parse", "kind": kind, "T": [], "file": seq(want or ""), "c": {"S": S, "O": O, "m": 1, "M": BIG},
         "chunks": [], "pages": pages}

    def f():
        p = cls(cfg)
        p.initialize()
        r = p.parse(path)
        e["T"] = seq(r["text"])
        if want is None:
            e["file"] = e["T"]
        e["chunks"] = chunks_of(r.get("chunks") or [])
    run(e, f)
    os.remove(path)
    return e

"""Writes documents, parses them with the real parsers and records traces for TrDocument."""
import copy
import os
import shutil

import core
import valori_env  # noqa: F401
from drv_chunk import limited, seq

WORDS = ["the", "and", "with", "or", "Of", "BUT", "vector", "search", "q", "xyz", "zug", "lack", "index,", "(key)", "e-mail"]


def unseq(s):
    return "".join(chr(abs(x)) for x in s)


def line(rng, n=None, weird=True):
    """A line of text without line breaks."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 9]) if n is None else n):
        out.append(rng.choice(WORDS))
        out.append(rng.choice([" ", " ", " ", "  "]))
    t = "".join(out)
    r = rng.random()
    if r < 0.3:
        t = t.strip()
    elif r < 0.4:
        t = " " + t
    if weird and rng.random() < 0.15:
        t += rng.choice(["\u00e9", "\u6f22\u5b57", "\U0001f600", "\u00df", "&<>", "\u00a0x"])
    return t


def outcome(e, cls, cfg, path, f, rng):
    """Parse, twice if it worked, and describe the result with f."""
    from valori.exceptions import ParsingError
    why = rng.random()
    e["why"], e["r"], e["again"], e["got"] = "", "", True, {}
    cfg = dict(cfg, chunk_size=rng.choice([10, 100, 1000]), chunk_overlap=rng.choice([0, 5]))
    size = os.path.getsize(path)
    if why < 0.04:
        cfg["max_file_size"], e["why"] = size - 1, "too large"
    elif why < 0.1:
        cfg["max_file_size"] = size
    target = path
    if 0.1 < why < 0.12:
        target, e["why"] = path + ".exe", "suffix"
        shutil.copy(path, target)
    elif 0.12 < why < 0.14:
        target, e["why"] = os.path.join(os.path.dirname(path), "missing" + os.path.splitext(path)[1]), "missing"
    elif 0.14 < why < 0.16:
        e["why"] = "not initialized"
    elif 0.16 < why < 0.18:
        e["why"] = "closed"

    def go():
        p = cls(cfg)
        if e["why"] != "not initialized":
            p.initialize()
        if e["why"] == "closed":
            p.close()
        r = p.parse(rng.choice([str, __import__("pathlib").Path])(target))
        if e["why"] == "":
            r1 = copy.deepcopy(r)
            r["metadata"].clear()
            r["chunks"].clear()
            r2 = p.parse(target)
            e["again"] = repr(r1) == repr(r2)
            r = r1
        m = r["metadata"]
        e["got"] = dict(f(r, m, r["structure"]), name=m["file_name"] == os.path.basename(path),
                        fsize=m["file_size"] == size)
    try:
        limited(go)
        e["r"] = "ok"
    except ParsingError:
        e["r"] = "ParsingError"
    except Exception as x:  # noqa: BLE001
        e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
    for p in {path, target}:
        if os.path.exists(p):
            os.remove(p)
    return e


def suffix(rng, *names):
    s = rng.choice(names)
    return s.upper() if rng.random() < 0.2 else s


def text(rng, d, given=None):
    from valori.parsers import TextParser
    t = unseq(given) if given is not None else "".join(line(rng) + rng.choice(["\n", "\n", "\n\n", "\n\n\n", "\r\n", "\r\n\r\n", "\r", "\n\n\n\n", " ", "\t\x0b\x0c"])
                for _ in range(rng.choice([0, 1, 3, 8, 30, 60])))
    enc = rng.choice(["utf-8", "utf-8", "utf-16", "utf-8-sig", "auto", "auto", "latin-1"])
    real = enc
    if enc == "latin-1":
        t = "".join(c for c in t if ord(c) < 256)
    if enc == "auto":
        real = rng.choice(["ascii", "ascii", "utf-8-sig", "utf-16"])
        if real == "ascii":
            t = "".join(c for c in t if c.isascii())
            t = t or "x"
        else:
            t = t + "\u6f22\u00e9"
    path = os.path.join(d, "f" + suffix(rng, ".txt", ".md", ".rst", ".log", ".csv"))
    raw = t.encode(real)
    if enc == "utf-8" and given is None and rng.random() < 0.2:      # what cannot be read becomes U+FFFD
        i = rng.randrange(len(raw) + 1)
        raw = raw[:i] + rng.choice([b"\xff", b"\xc3", b"\xe6\xbc", b"\x80\x80"]) + raw[i:]
        t = raw.decode(enc, "replace")
    with open(path, "wb") as f:
        f.write(raw)
    cfg = {"encoding": enc} if enc != "auto" or rng.random() < 0.5 else {}
    return outcome({"op": "text", "doc": seq(t), "enc": enc}, TextParser, cfg, path, lambda r, m, s: {
        "text": seq(r["text"]), "paragraphs": s["paragraphs"], "language": m["language"],
        "encoding": m["encoding"]}, rng)


class Page:
    def __init__(self, p):
        self.p = p

    def extract_text(self):
        if not self.p["ok"]:
            raise ValueError("unreadable page")
        return self.p["text"]


class Reader:
    doc, info = [], None

    def __init__(self, f):
        self.pages = [Page(p) for p in Reader.doc]
        self.metadata = Reader.info


def pdf(rng, d, given=None):
    import PyPDF2
    from valori.parsers import PDFParser
    pages = [{"text": "\n".join(line(rng) for _ in range(rng.choice([0, 1, 3]))), "ok": rng.random() < 0.9}
             for _ in range(rng.choice([0, 1, 2, 5, 12]))]
    if rng.random() < 0.1:
        pages.append({"text": line(rng, 230), "ok": True})
    if given is not None:
        pages = [{"text": unseq(p["t"]), "ok": p["ok"]} for p in given]
    Reader.doc = pages
    info = rng.choice([None, {}, {"/Title": "A title", "/Author": "me"}, {"/Author": "x y"},
                       {"/Subject": "s", "/Creator": "c", "/Producer": "p", "/CreationDate": "D:2020", "/ModDate": "D:2021"}])
    Reader.info = info
    path = os.path.join(d, "f" + suffix(rng, ".pdf"))
    open(path, "wb").write(b"%PDF" + b"x" * rng.randint(0, 50))
    old, PyPDF2.PdfReader = PyPDF2.PdfReader, Reader
    try:
        return outcome({"op": "pdf", "doc": [{"t": seq(p["text"]), "ok": p["ok"]} for p in pages],
                        "about": [(info or {}).get("/" + k, "") for k in ("Title", "Author", "Subject", "Creator", "Producer", "CreationDate", "ModDate")]},
                       PDFParser, {}, path, lambda r, m, s: {
            "text": seq(r["text"]), "n": m["num_pages"] if m["num_pages"] == s["pages"] else -1,
            "withtext": m["num_pages_with_text"] if m["num_pages_with_text"] == s["pages_with_text"] else -1,
            "info": [[x["page_number"], x["text_length"]] for x in m["page_metadata"]],
            "reading": s["estimated_reading_time"], 
            "about": [m[k] for k in ("title", "author", "subject", "creator", "producer", "creation_date", "modification_date")]}, rng)
    finally:
        PyPDF2.PdfReader = old


def docx_(rng, d, given=None):
    import docx
    from valori.parsers import OfficeParser
    doc = docx.Document()
    paras, tables = [], []
    for g in given if given is not None else range(rng.choice([0, 1, 3, 8])):
        if given is None and rng.random() < 0.25:
            nr, nc = rng.randint(1, 3), rng.randint(1, 3)
            cells = [[line(rng, rng.choice([0, 1, 2])) for _ in range(nc)] for _ in range(nr)]
            tb = doc.add_table(nr, nc)
            for i in range(nr):
                for j in range(nc):
                    tb.cell(i, j).text = cells[i][j]
            tables.append([[seq(c) for c in r] for r in cells])
        else:
            t = line(rng, 230 if rng.random() < 0.03 else None) + rng.choice(["", "", "", "\nmore", "\ttab"])
            t = t if given is None else unseq(g["t"])
            style = rng.choice(["Normal", "Normal", "Heading 1", "List Bullet"])
            doc.add_paragraph(t, style=style)
            paras.append({"t": seq(t), "style": style})
    path = os.path.join(d, "f" + suffix(rng, ".docx"))
    doc.save(path)
    cfg = rng.choice([{}, {"extract_tables": True}, {"extract_tables": False}])
    return outcome({"op": "docx", "doc": paras, "tables": tables, "extract": cfg.get("extract_tables", True)},
                   OfficeParser, cfg, path, lambda r, m, s: {
        "text": seq(r["text"]), "n": m["num_paragraphs"] if m["num_paragraphs"] == s["paragraphs"] else -1,
        "info": [[x["paragraph_number"], x["text_length"], x["style"]] for x in m["paragraphs_info"]],
        "tables": [[[seq(c) for c in row] for row in x["data"]] for x in m["tables_info"]],
        "sizes": [[x["table_number"], x["rows"], x["columns"]] for x in m["tables_info"]],
        "ntables": m["num_tables"] if m["num_tables"] == s["tables"] else -1,
        "reading": s["estimated_reading_time"]}, rng)


def xlsx(rng, d):
    import openpyxl
    from valori.parsers import OfficeParser
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    sheets = []
    for k in range(rng.choice([1, 1, 2, 4])):
        name = rng.choice(["Sheet", "data ", "\u00dcbersicht", "a&b"]) + str(k)
        ws = wb.create_sheet(name)
        rows = []
        for _ in range(rng.choice([0, 1, 2, 5])):
            row = [rng.choice([None, None, 0, 5, -17, 2.5, -0.125, True, False, "x", "two words", "\u00e9\u6f22", "0", "12", " "])
                   for _ in range(rng.randint(1, 4))]
            ws.append(row)
            rows.append([[-1] if x is None else seq(str(x)) for x in row])
        sheets.append({"name": seq(name), "rows": rows})
    path = os.path.join(d, "f" + suffix(rng, ".xlsx"))
    wb.save(path)
    return outcome({"op": "xlsx", "doc": sheets}, OfficeParser, {}, path, lambda r, m, s: {
        "text": seq(r["text"]), "n": m["num_sheets"] if m["num_sheets"] == s["sheets"] else -1,
        "names": [seq(x) for x in m["sheet_names"]],
        "info": [[seq(x["sheet_name"]), x["text_length"]] for x in m["sheets_info"]],
        "size": [[x["max_row"], x["max_column"]] for x in m["sheets_info"]], "cells": s["total_cells"]}, rng)


def pptx_(rng, d, given=None):
    import pptx
    from pptx.util import Inches
    from valori.parsers import OfficeParser
    pr = pptx.Presentation()
    doc = []
    for g in given if given is not None else range(rng.choice([0, 1, 2, 5, 11])):
        s = pr.slides.add_slide(pr.slide_layouts[6])
        shapes = []
        for _ in range(rng.choice([0, 1, 1, 2, 4]) if given is None else 1):
            t = unseq(g["t"]) if given is not None else line(rng, 210 if rng.random() < 0.02 else None) + rng.choice(["", "", "\nmore"])
            s.shapes.add_textbox(Inches(1), Inches(1), Inches(2), Inches(1)).text_frame.text = t
            shapes.append(seq(t))
        doc.append(shapes)
    path = os.path.join(d, "f" + suffix(rng, ".pptx"))
    pr.save(path)
    return outcome({"op": "pptx", "doc": doc}, OfficeParser, {}, path, lambda r, m, s: {
        "text": seq(r["text"]), "n": m["num_slides"] if m["num_slides"] == s["slides"] else -1,
        "info": [[x["slide_number"], x["text_length"], x["shapes_with_text"]] for x in m["slides_info"]],
        "reading": s["estimated_reading_time"]}, rng)


def corrupt(rng, d):
    """A file that is not what its name says."""
    from valori.parsers import OfficeParser, PDFParser
    ext = rng.choice([".docx", ".xlsx", ".pptx", ".pdf"])
    path = os.path.join(d, "f" + ext)
    open(path, "wb").write(rng.choice([b"", b"not a document", b"PK\x03\x04broken", os.urandom(0) + b"%PDF-1.4 broken"]))
    e = {"op": "text", "doc": [], "enc": ""}
    outcome(e, PDFParser if ext == ".pdf" else OfficeParser, {}, path, lambda r, m, s: {}, rng)
    e["why"] = e["why"] or "corrupt"
    return e


def small(rng, docs):
    """The small documents of the model."""
    tr = [{"op": "reset"}]
    d = core.fresh_dir("doc")
    try:
        for kind, doc in docs:
            f = text if kind == "text" else rng.choice([pdf, pdf, docx_, pptx_])
            tr.append(f(rng, d, doc))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return tr


def history(rng, n=5):
    tr = [{"op": "reset"}]
    d = core.fresh_dir("doc")
    try:
        for _ in range(n):
            tr.append(rng.choice([text, text, pdf, docx_, xlsx, pptx_, corrupt])(rng, d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return tr

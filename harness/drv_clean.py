"""Drives the cleaning processor and records traces for TrClean."""
import copy
import random  # noqa: F401

import valori_env  # noqa: F401

ENT = {-60: "&lt;", -62: "&gt;", -38: "&amp;", -160: "&nbsp;", -233: "&eacute;", -65: "&#65;"}
STOPS = ["a", "an", "and", "are", "as", "at", "be", "by", "for", "from", "has", "he", "in", "is", "it", "its", "of",
         "on", "that", "the", "to", "was", "will", "with"]
SMALL = [97, 66, 32, 10, 60, 62, 35, 46, -60, -38, 160, 233, 64257, 65308, 304]
ALL = [97, 98, 66, 90, 32, 32, 10, 9, 60, 62, 35, 64, 36, 46, 44, 33, 63, 59, 58, 45, 95, 48, 55, -60, -62, -38, -160, -233,
       -65, 160, 8195, 12288, 233, 201, 304, 916, 948, 64257, 65308, 65310, 189, 178, 168, 20013, 128512, 40, 41, 34, 39, 47]
COMBINING = {233, 201, 304, 168, -233}


def raw(T):
    return "".join(ENT[x] if x < 0 else chr(x) for x in T)


def seq(s):
    return [ord(ch) for ch in s]


def config(c, rng=None):
    cfg = {"remove_html": c["html"], "normalize_unicode": c["uni"], "remove_special_chars": c["special"] != "off",
           "normalize_whitespace": c["ws"], "remove_extra_spaces": c["extra"], "lowercase": c["lower"],
           "remove_stopwords": c["stop"], "min_word_length": c["minw"], "max_word_length": c["maxw"]}
    if c["special"] == "digits":
        cfg["special_chars_pattern"] = "[0-9]"
    default = {"remove_html": True, "normalize_unicode": True, "remove_special_chars": False, "normalize_whitespace": True,
               "remove_extra_spaces": True, "lowercase": False, "remove_stopwords": False, "min_word_length": 1, "max_word_length": 50}
    if rng:
        for k, v in default.items():
            if cfg[k] == v and rng.random() < 0.5:
                del cfg[k]
    return cfg


def switches(rng):
    b = lambda p=0.5: rng.random() < p  # noqa: E731
    return {"html": b(), "uni": b(), "special": rng.choice(["off", "off", "default", "default", "digits"]), "ws": b(), "extra": b(),
            "lower": b(), "stop": b(0.4), "minw": rng.choice([1, 1, 1, 2, 3]), "maxw": rng.choice([50, 50, 4, 8]),
            "stopwords": [seq(w) for w in STOPS]}


def clean(T, c, rng, chunks=()):
    """One document through a new processor."""
    from valori.processors.cleaning import CleaningProcessor
    doc = {"text": raw(T), "metadata": {"k": [1, {"a": "<b>"}]}, "structure": {"type": "<x>"}, "other": "  a  "}
    if chunks or rng.random() < 0.3:
        doc["chunks"] = [{"id": i, "text": raw(x), "start_pos": 3, "page": [1]} for i, x in enumerate(chunks)]
        # chunks of something else than text (a picture) are kept as they are
        for _ in range(rng.choice([0, 0, 1, 2])):
            doc["chunks"].insert(rng.randrange(len(doc["chunks"]) + 1), {"id": "p%d" % rng.randrange(99), "image": " <i>  x"})
    if not T and rng.random() < 0.5:
        del doc["text"]
    before = copy.deepcopy(doc)
    e = {"op": "clean", "c": c, "T": T, "chunks": list(chunks), "out": [], "outs": [], "kept": True}
    try:
        p = CleaningProcessor(config(c, rng))
        p.initialize()
        r = p.process(doc)
        e["r"] = "ok"
        e["out"] = seq(r.get("text", ""))
        e["outs"] = [seq(x["text"]) for x in r.get("chunks", []) if "text" in x]
        has = lambda d: ["text" in x for x in [d] + d.get("chunks", [])]  # noqa: E731
        strip = lambda d: {k: v for k, v in d.items() if k not in ("text", "chunks")}  # noqa: E731
        e["kept"] = strip(r) == strip(before) and has(r) == has(before) and ("chunks" in r) == ("chunks" in before) and \
            [strip(x) for x in r.get("chunks", [])] == [strip(x) for x in before.get("chunks", [])]
    except Exception as x:  # noqa: BLE001
        e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
    e["intact"] = doc == before
    return e


def again(T, c, rng):
    """Cleaning what was cleaned, by the same processor after other documents."""
    from valori.processors.cleaning import CleaningProcessor
    e = {"op": "again", "c": c, "intact": True, "kept": True, "same": False,
         "plain": all(x >= 0 and x not in (65308, 65310, 304) for x in T)}
    try:
        p = CleaningProcessor(config(c, rng))
        p.initialize()
        one = p.process({"text": raw(T)})
        p.process({"text": "Other text <b>x</b>", "chunks": [{"text": "y"}]})
        if rng.random() < 0.3:
            p.close()
            p.initialize()
        e["same"] = p.process(one)["text"] == one["text"] and p.process({"text": raw(T)}) == one
        e["r"] = "ok"
    except Exception as x:  # noqa: BLE001
        e["r"], e["x_"] = "err", "%s: %s" % (type(x).__name__, str(x)[:100])
    return e


def closed(rng):
    from valori.processors.cleaning import CleaningProcessor
    p = CleaningProcessor({})
    if rng.random() < 0.5:
        p.initialize()
        p.process({"text": "x"})
        p.close()
    e = {"op": "closed", "intact": True, "kept": True, "r": "ok"}
    try:
        p.process({"text": "x"})
    except Exception:  # noqa: BLE001
        e["r"] = "err"
    return e


def small(cases, rng):
    return [{"op": "reset"}] + [clean(list(T), c, rng) for T, c in cases]


def text(rng, n=None):
    n = rng.choice([0, 1, 3, 8, 15, 30]) if n is None else n
    out = []
    while len(out) < n:
        r = rng.random()
        if r < 0.2:
            part = seq(rng.choice(["the", "The", "IT", "a", "cat", "with", "within", "THAT", "hello", "is", "of", "xx", "antidisestablishment"])) + [32]
        elif r < 0.35:
            part = seq(rng.choice(["<b>", "</p>", "<>", "<<i>>", "< a >", "<br/>", "a<b", "b>a", "<\n>", "<a href='x'>"]))
        elif r < 0.45:
            part = [rng.choice([32, 10, 9, 160, 8195])] * rng.randint(1, 4)
        else:
            part = [rng.choice(ALL) for _ in range(rng.randint(1, 4))]
        for x in part:
            # keep combining marks apart: their canonical order is not modelled
            if out and out[-1] in COMBINING and x in COMBINING:
                out.append(46)
            # an entity must not be followed by what could lengthen a markup-free '&'
            out.append(x)
    return out[:n]


def random_clean(rng, n=8):
    tr = [{"op": "reset"}]
    for _ in range(n):
        r = rng.random()
        if r < 0.7:
            tr.append(clean(text(rng), switches(rng), rng, [text(rng, rng.choice([0, 2, 8])) for _ in range(rng.choice([0, 0, 1, 3]))]))
        elif r < 0.95:
            tr.append(again(text(rng), switches(rng), rng))
        else:
            tr.append(closed(rng))
    return tr

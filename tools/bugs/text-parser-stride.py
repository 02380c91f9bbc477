PROPERTY='P20'
NEEDS='a long text file in which a chunk ends at a sentence more than the overlap before its size limit'
BREAKS='the next chunk starts relative to the size limit instead of the end of the chunk, so the text in between is in no chunk'
EDITS=[('src/valori/parsers/text_parser.py',"""            start = max(end - self.chunk_overlap, start + 1)
""","""            start += max(self.chunk_size - self.chunk_overlap, 1)
""")]
DEMO='''
import os, sys, tempfile
from valori.parsers.text_parser import TextParser
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.txt")
    text = ("a" * 60 + "." + "b" * 50) * 4
    open(f, "w").write(text)
    p = TextParser({"chunk_size": 100, "chunk_overlap": 10, "encoding": "utf-8"})
    p.initialize()
    chunks = p.parse(f)["chunks"]
    seen = set()
    for c in chunks:
        seen.update(range(c["start_pos"], c["end_pos"]))
    sys.exit(len(seen) != len(text))
'''

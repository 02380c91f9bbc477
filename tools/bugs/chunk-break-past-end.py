PROPERTY='P20'
NEEDS='a separator of more than one character that starts right at the end of the size limit, in the last position where its first character still belongs to the chunk'
BREAKS='a break may lie behind the end of the chunk, so the chunk is longer than the limit (and dropped where the maximum is the limit)'
EDITS=[('src/valori/processors/chunking.py',"""            break_pos = text.rfind(separator, start, end)
""","""            break_pos = text.rfind(separator, start, end + len(separator) - 1)
""")]
DEMO='''
import sys
from valori.processors.chunking import ChunkingProcessor
bad = 0
for n in range(10, 30):
    t = "x" * n + "\\n\\ny" + "z" * 40 + ". " + "w" * 12
    for n2 in range(60, 70):
        text = "a" * n + "!?" + "b" * (n2 - n)
        p = ChunkingProcessor({"chunk_size": 20, "chunk_overlap": 0, "min_chunk_size": 1, "separators": ["!?", " "]})
        p.initialize()
        bad += any(len(c["text"]) > 20 for c in p.process({"text": text})["chunks"])
sys.exit(bool(bad))
'''

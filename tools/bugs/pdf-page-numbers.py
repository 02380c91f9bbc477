PROPERTY='P35'
NEEDS='a PDF with a page without text (or an unreadable one) before another page'
BREAKS='the pages with text are numbered one after the other, so the page numbers do not name the pages of the document'
EDITS=[('src/valori/parsers/pdf_parser.py','''                                    "page_number": page_num + 1,
''','''                                    "page_number": len(text_parts),
''')]
DEMO='''
import os, sys, tempfile
import PyPDF2
from valori.parsers.pdf_parser import PDFParser
class Page:
    def __init__(self, t): self.t = t
    def extract_text(self): return self.t
class Reader:
    def __init__(self, f):
        self.pages = [Page("one"), Page("  "), Page("three")]
        self.metadata = None
PyPDF2.PdfReader = Reader
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.pdf")
    open(f, "wb").write(b"%PDF")
    p = PDFParser({})
    p.initialize()
    m = p.parse(f)["metadata"]["page_metadata"]
    sys.exit([x["page_number"] for x in m] != [1, 3])
'''

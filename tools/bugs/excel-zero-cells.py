PROPERTY='P35'
NEEDS='a sheet with a cell that holds 0 or FALSE'
BREAKS='cells with the number 0 or FALSE are taken for empty ones and are missing from the text'
EDITS=[('src/valori/parsers/office_parser.py','''                    if cell is not None:
                        row_text''','''                    if cell:
                        row_text''')]
DEMO='''
import os, sys, tempfile
import openpyxl
from valori.parsers.office_parser import OfficeParser
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.xlsx")
    wb = openpyxl.Workbook()
    wb.active.append(["a", 0, False, 7])
    wb.save(f)
    p = OfficeParser({})
    p.initialize()
    sys.exit("a | 0 | False | 7" not in p.parse(f)["text"])
'''

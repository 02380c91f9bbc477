PROPERTY='P29'
NEEDS='create_document_db with an explicit storage_type'
BREAKS='the defaults of the document database win over the explicit storage type, so a database asked to be on disk is only in memory'
EDITS=[('src/valori/factory.py','''    db_config = {"index_type": index_type, "storage_type": "memory", **kwargs}
''','''    db_config = {**kwargs, "index_type": index_type, "storage_type": "memory"}
''')]
DEMO='''
import sys, tempfile
import valori.factory as F
from valori.storage import DiskStorage
class Pipe:
    def __init__(self, config): pass
    def initialize(self): pass
F.ProcessingPipeline = Pipe
with tempfile.TemporaryDirectory() as d:
    c, _ = F.create_document_db(index_type="flat", storage_type="disk", storage_config={"data_dir": d})
    ok = isinstance(c.storage_backend, DiskStorage)
    c.close()
sys.exit(not ok)
'''

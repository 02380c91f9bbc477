PROPERTY='P16'
NEEDS='a batch run in which some items fail'
BREAKS='the printed progress counts failed items as processed in its percentage'
EDITS=[('src/valori/utils/batch_manager.py','''        progress = self._stats["processed_items"] / self._stats["total_items"]
''','''        handled = self._stats["processed_items"] + self._stats["failed_items"]
        progress = handled / self._stats["total_items"]
''')]
DEMO='''
import contextlib
import io
import re
import sys
import numpy as np
from valori import VectorDBClient
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
from valori.utils.batch_manager import BatchManager
db = VectorDBClient(MemoryStorage({}), FlatIndex({"metric": "euclidean"})); db.initialize()
v = np.array([[1.0, 2.0], [np.nan, 1.0], [3.0, 4.0], [5.0, 6.0]])
bm = BatchManager(batch_size=1)
bm.set_error_callback(lambda e, x: None)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    bm.batch_insert(db, v, [{} for _ in v], show_progress=True)
sys.exit(re.findall(r"([0-9.]+)%", out.getvalue())[-1] != "75.0")
'''

PROPERTY='P36'
NEEDS='loading a file that is not there, and looking at the counters'
BREAKS='loads of files that do not exist are counted as loads'
EDITS=[('src/valori/persistence/tensor.py','''            if not file_path.exists():
                return None

            with open(file_path, "rb") as f:
                state = pickle.load(f)
            self._load_count += 1
            return state
''','''            self._load_count += 1
            if not file_path.exists():
                return None

            with open(file_path, "rb") as f:
                state = pickle.load(f)
            return state
''')]
DEMO='''
import sys, tempfile
from valori.persistence import TensorPersistence
with tempfile.TemporaryDirectory() as d:
    p = TensorPersistence({"data_dir": d}); p.initialize()
    p.load_state("nothing")
    sys.exit(p.get_stats()["load_count"] != 0)
'''

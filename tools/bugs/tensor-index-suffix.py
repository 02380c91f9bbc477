PROPERTY='P13'
NEEDS='two indices saved under names that differ after the last dot only'
BREAKS='saving and loading an index both replace the ending of the name, so the index saved second takes the place of the first'
EDITS=[('src/valori/persistence/tensor.py','''            file_path = self.data_dir / path

            # Ensure directory exists
            file_path.parent.mkdir(parents=True, exist_ok=True)

            self._write_file(
                file_path,
                lambda f: pickle.dump(index_data''','''            file_path = (self.data_dir / path).with_suffix(".idx")

            # Ensure directory exists
            file_path.parent.mkdir(parents=True, exist_ok=True)

            self._write_file(
                file_path,
                lambda f: pickle.dump(index_data'''),
('src/valori/persistence/tensor.py','''            file_path = self.data_dir / path

            if not file_path.exists():
                return None

            with open(file_path, "rb") as f:
                index_data''','''            file_path = (self.data_dir / path).with_suffix(".idx")

            if not file_path.exists():
                return None

            with open(file_path, "rb") as f:
                index_data''')]
DEMO='''
import sys, tempfile, shutil
from valori.persistence import TensorPersistence
d = tempfile.mkdtemp()
p = TensorPersistence({"data_dir": d}); p.initialize()
p.save_index({"v": 1}, "model.1")
p.save_index({"v": 2}, "model.2")
r = p.load_index("model.1")
shutil.rmtree(d)
print(r)
sys.exit(r != {"v": 1})
'''

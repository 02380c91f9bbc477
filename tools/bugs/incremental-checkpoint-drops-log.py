PROPERTY='P14'
NEEDS='as many operations as the checkpoint interval'
BREAKS='an automatic checkpoint empties the log, so acknowledged saves are no longer in it'
EDITS=[('src/valori/persistence/incremental.py','''            self._last_checkpoint = self._operation_count
            self._save_checkpoint_info()

        except''','''            self._last_checkpoint = self._operation_count
            self._save_checkpoint_info()
            self.log_file.write_text("")  # covered by the checkpoint

        except''')]
DEMO='''
import sys, tempfile, shutil
from valori.persistence import IncrementalPersistence
d = tempfile.mkdtemp()
p = IncrementalPersistence({"data_dir": d, "checkpoint_interval": 3}); p.initialize()
for i in range(5):
    p.save_index({"v": i}, "x")
n = p.get_stats()["logged_operations"]
shutil.rmtree(d)
print(n)
sys.exit(n != 5)
'''

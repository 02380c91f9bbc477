PROPERTY='P14'
NEEDS='a checkpoint with a one digit and one with a two digit operation number'
BREAKS='checkpoints are ordered by name, so checkpoint_9 counts as newer than checkpoint_10'
EDITS=[('src/valori/persistence/incremental.py',"""            checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))
""","""            checkpoint_files.sort(key=lambda x: x.stem.split("_")[1])
""")]
DEMO='''
import sys, tempfile
from valori.persistence import IncrementalPersistence
with tempfile.TemporaryDirectory() as d:
    p = IncrementalPersistence({"data_dir": d}); p.initialize()
    for i in range(12):
        p.save_state({"i": i}, "state")
        if p.load_state("state") != {"i": i}:
            sys.exit(1)
'''

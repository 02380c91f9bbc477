PROPERTY='P37'
NEEDS='logging set up with a log file and then set up again with another one or none'
BREAKS='only console handlers are replaced, so the file of an earlier setup keeps receiving messages'
EDITS=[('src/valori/utils/logging.py','''    root_logger.handlers.clear()
''','''    for old in root_logger.handlers[:]:
        if type(old) is logging.StreamHandler:
            root_logger.removeHandler(old)
''')]
DEMO='''
import os, sys, tempfile, shutil, logging
from valori.utils.logging import setup_logging, log_info
d = tempfile.mkdtemp()
a, b = os.path.join(d, "a.log"), os.path.join(d, "b.log")
setup_logging({"log_to_file": True, "log_file": a})
log_info("first")
setup_logging({"log_to_file": True, "log_file": b})
log_info("second")
bad = "second" in open(a).read() or open(b).read().count("second") != 1
logging.shutdown()
shutil.rmtree(d)
sys.exit(bool(bad))
'''

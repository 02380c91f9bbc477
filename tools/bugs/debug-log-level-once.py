PROPERTY='P37'
NEEDS='logging for debugging set up twice with different levels'
BREAKS='the level of the first setup stays in force, so a later setup neither shows more nor less'
EDITS=[('src/valori/utils/debugging.py','''    logger = logging.getLogger("valori")
    logger.setLevel(log_level)
''','''    logger = logging.getLogger("valori")
    if logger.level == logging.NOTSET:
        logger.setLevel(log_level)
''')]
DEMO='''
import os, sys, tempfile, shutil, logging
from valori.utils.debugging import setup_logging
d = tempfile.mkdtemp()
a = os.path.join(d, "a.log")
setup_logging("WARNING")
setup_logging("DEBUG", a)
logging.getLogger("valori.x").debug("detail")
bad = open(a).read().count("detail") != 1
logging.shutdown()
shutil.rmtree(d)
sys.exit(bool(bad))
'''

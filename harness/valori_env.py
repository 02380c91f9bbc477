"""Makes `import valori` load the code under /repo and silences it."""
import logging
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VALORI_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)


def check_location():
    import valori
    here = os.path.realpath(os.path.dirname(valori.__file__))
    want = os.path.realpath(os.path.join(REPO, "src", "valori"))
    if here != want:
        raise SystemExit("machinery: valori was imported from %s, not %s" % (here, want))

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "LOKY_MAX_CPU_COUNT"):
    os.environ.setdefault(v, "1")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
    if os.path.exists(PY) and not os.environ.get("VALORI_VERIF_REEXEC"):
        os.environ["VALORI_VERIF_REEXEC"] = "1"
        os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))


def main():
    import argparse
    import traceback
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import core
    rc = 2
    try:
        import registry
        ck = core.Check(a.property, a.tier, seed)
        core._limit = ck.n(100, 3000)
        try:
            with core.deadline(ck.n(700, 6 * 3600)):
                registry.run(ck)
        except core.Machinery:
            raise
        except Exception:
            # a driver that breaks while it runs the code (it never does on code that behaves)
            text = traceback.format_exc()
            if not core.driver_failure(text):
                raise
            ck.violation("driver", "the code broke the driver: " + text[-1500:], {"traceback": text})
        rc = ck.finish()
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        core.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()

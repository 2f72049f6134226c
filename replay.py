#!/opt/venv/bin/python
"""Re-runs one counterexample on the unpatched repository code.

usage: replay.py FILE.json     exit 1: the violation is reproduced, 0: it is not, 2: error
"""
import json
import os
import sys
from fractions import Fraction

REPO = os.environ.get("GEEC_REPO", "/repo")
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/geec_numba_cache")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.append(os.path.dirname(os.path.abspath(__file__)))


def num(x):
    if isinstance(x, str) and x not in ("nan", "inf"):
        return float(Fraction(x))
    if isinstance(x, list):
        return [num(y) for y in x]
    if isinstance(x, dict):
        return {k: num(v) for k, v in x.items()}
    return x if isinstance(x, bool) or x is None else float(x)


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    import warnings

    warnings.filterwarnings("ignore")
    from loguru import logger

    logger.remove()
    from engine import scenarios

    fn = getattr(scenarios, spec["scenario"])
    bad = fn(spec, num)
    if bad:
        print(f"reproduced on the unpatched code: {bad}")
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)

#!/opt/venv/bin/python
"""usage: run_check.py ID [quick|thorough] [--case NAME ...]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)


def main():
    import importlib
    import warnings

    warnings.filterwarnings("ignore")
    pid = sys.argv[1]
    args = sys.argv[2:]
    only = None
    if "--case" in args:
        i = args.index("--case")
        only = args[i + 1 :]
        args = args[:i]
    tier = args[0] if args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from engine import harness

    mod = importlib.import_module("checks." + pid.lower())
    cases = mod.cases(pid) if hasattr(mod, "cases") else mod.CASES
    if only:
        cases = [c for c in cases if c.name in only]
        for c in cases:
            c.tiers = ("quick", "thorough")
    return harness.run_check(pid, cases, tier, seed, mod.META, jobs=int(os.environ.get("VERIF_JOBS", "8")))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

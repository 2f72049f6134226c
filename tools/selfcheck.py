"""setup: the solver and the libraries the checks need are there."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import confuse, numpy, pandas, pymap3d, pygeodesy, scipy, z3  # noqa: E401,F401,E402

s = z3.Solver()
x = z3.Real("x")
s.add(x * x < 0)
assert s.check() == z3.unsat
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok", z3.get_version_string())

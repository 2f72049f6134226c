"""Running geec's command line code in a scratch directory, with symbols in the
configuration file and in the table written."""
from __future__ import annotations

import csv
import inspect
import os

import numpy as _np

from . import confsym, loader, shims, sym as S

OUT: dict = {}  # float written in a table -> Sym
_state = {"on": False}


def out_token(s):
    for k, v in OUT.items():
        if v is s:
            return k
    f = 1.2345678901234567 + 0.0123456789012345 * (len(OUT) + 1)  # needs all its digits
    OUT[f] = s
    return f


def install():
    """tables of symbols are written as tokens (this forked process only)"""
    OUT.clear()
    if _state["on"]:
        return
    _state["on"] = True
    import pandas as pd

    real = pd.DataFrame.to_csv

    def to_csv(self, *a, **k):
        d = self.copy()
        for j in range(d.shape[1]):
            col = d.iloc[:, j]
            d.isetitem(j, [_conc(x) for x in col])
        return real(d, *a, **k)

    pd.DataFrame.to_csv = to_csv


def _conc(x):
    if isinstance(x, S.Sym):
        if x.is_const():
            return float(x.const())
        return out_token(x)
    return x


def read_table(path):
    """(names, units, rows) of a table that was written; tokens exchanged"""
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    names, units = rows[0], rows[1]
    body = []
    for r in rows[2:]:
        out = []
        for x in r:
            v = float(x)
            out.append(OUT.get(v, S.lift(v) if v == v else None))
        body.append(out)
    return names, units, body


def fake_fields(P):
    """Polyhedron whose field is an arbitrary function of points, station, density and G"""
    C = P.Polyhedron
    sig = inspect.signature(C.get_gravity)

    def init(self, points, *a, **k):
        if not isinstance(points, _np.ndarray):
            raise KeyError("not an array")
        self.points = points.copy()
        self.npoints = len(points)
        self.faces = []

    def get_gravity(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        v = list(b.arguments.values())
        return field(self.points, v[1], v[2], v[3], v[4])

    C.__init__ = init
    C.get_gravity = get_gravity


def field(points, obs, rho, Gc, gradient):
    a = [S.lift(x) for p in points for x in p] + [S.lift(x) for x in obs] + [S.lift(rho), S.lift(Gc)]
    n = len(points)
    G = _np.array([S.uf(f"G{n}_{c}", *a) for c in range(3)], dtype=object).view(shims.SymArray)
    T = _np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            T[i, j] = S.uf(f"T{n}_{min(i, j)}{max(i, j)}", *a) if gradient else S.lift(0)
    return G, T.view(shims.SymArray)


def numeric():
    """numbers for the arbitrary fields (search only)"""
    def mk(c):
        def f(*a):
            w = _np.sin(c + 1.0)
            for k, x in enumerate(a):
                w = w + _np.sin(0.37 * (k + 1 + c) + x * (1 + 0.11 * k))
            return w

        return f

    for n in range(4, 9):
        for c in range(3):
            S.FLOAT_FN[f"G{n}_{c}"] = mk(c)
            for d in range(c, 3):
                S.FLOAT_FN[f"T{n}_{c}{d}"] = mk(3 + 3 * c + d)


def yaml_text(d, ind=0):
    """small YAML writer: numbers with all their digits"""
    import yaml

    return yaml.safe_dump(d, sort_keys=False)


def tokens(v):
    """symbols inside a configuration, replaced by tokens to be written in a file"""
    if isinstance(v, S.Sym):
        return confsym.token(v)
    if isinstance(v, dict):
        return {k: tokens(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [tokens(x) for x in v]
    return v


def scratch_env(tmp):
    os.environ["GEECDIR"] = os.path.join(tmp, "userdir")
    os.makedirs(os.environ["GEECDIR"], exist_ok=True)
    os.environ["HOME"] = tmp

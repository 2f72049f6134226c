"""confuse with symbolic numbers.

Two ways to put a symbolic real in a configuration:
 - directly in a dictionary given to Configuration.set();
 - as a token: a unique float written in a real file (YAML or CSV) that is exchanged for
   its symbol when the value leaves the parser.
The library itself is the real one; only the number test and the last step of reading a
value know about symbols.
"""
from __future__ import annotations

from collections import abc

import confuse
import numpy as _np

from . import shims, sym as S

TOKENS: dict = {}  # float -> Sym
_state = {"on": False}


def token(sym, n=[0]):
    """a float that stands for `sym` in a file"""
    for k, v in TOKENS.items():
        if v is sym or v.key() == sym.key():
            return k
    f = 700001.5 + 2 * len(TOKENS)
    TOKENS[f] = sym
    return f


def exchange(v):
    """tokens inside a value read from a file, replaced by their symbols"""
    if isinstance(v, float) and v in TOKENS:
        return TOKENS[v]
    if isinstance(v, list):
        return [exchange(x) for x in v]
    if isinstance(v, tuple):
        return tuple(exchange(x) for x in v)
    if isinstance(v, abc.Mapping) and TOKENS:
        return type(v)((k, exchange(x)) for k, x in v.items()) if type(v) in (dict,) else v
    return v


def install():
    """patch confuse in this (forked) process"""
    TOKENS.clear()
    if _state["on"]:
        return
    _state["on"] = True
    N = confuse.templates.Number
    real_num = N.convert

    def convert(self, value, view):
        if isinstance(value, S.Sym):
            return value
        return real_num(self, value, view)

    N.convert = convert
    V = confuse.core.ConfigView
    real_first = V.first

    def first(self):
        v, src = real_first(self)
        return exchange(v), src

    V.first = first


def config(d):
    c = confuse.Configuration("geec_verif", read=False)
    c.set(d)
    return c


SAME = {"drop_duplicates", "dropna", "reset_index", "copy", "head", "tail", "drop", "transpose", "rename", "iloc", "loc", "iat", "at", "squeeze", "reindex", "set_axis", "T", "columns", "index", "ndim", "size", "empty", "axes", "duplicated", "isna", "isnull", "notna", "notnull", "any", "all", "infer_objects", "convert_dtypes", "pop", "get", "keys", "items"}


class Frame:
    """a pandas.DataFrame (or Series) read from a file: tokens inside, symbols outside.
    Only what moves or compares cells is allowed; a token equals another exactly when both
    stand for one symbol"""

    def __init__(self, df, narrow=None):
        self._df = df
        self._narrow = narrow

    @property
    def values(self):
        v = self._df.values
        a = _np.empty(v.shape, dtype=object)
        for ix in _np.ndindex(*v.shape):
            x = v[ix]
            a[ix] = exchange(float(x)) if isinstance(x, (int, float, _np.integer, _np.floating)) else x
            if x.dtype.kind == "f" and x.dtype.itemsize < 8 if isinstance(x, _np.generic) else False:
                a[ix] = shims.narrow(a[ix], x.dtype)
        if self._narrow is not None and a.size:
            return shims._map(lambda x: shims.narrow(x, self._narrow), shims.obj(a))
        return shims.obj(a) if a.size else a

    def to_numpy(self, dtype=None, copy=False, **k):
        return self.values

    @property
    def array(self):
        return self.values

    @property
    def shape(self):
        return self._df.shape

    def __len__(self):
        return len(self._df)

    def __array__(self, dtype=None, copy=None):
        return self.values

    def astype(self, dtype, *a, **k):
        dt = _np.dtype(dtype)
        if dt.kind != "f":
            raise S.Unsupported("DataFrame.astype of a file")
        return Frame(self._df, dt) if dt.itemsize < 8 else self

    def itertuples(self, index=True, name=None):
        return (((i,) if index else ()) + tuple(r) for i, r in enumerate(self.values))

    def iterrows(self):
        return ((i, r) for i, r in zip(self._df.index, self.values))

    def tolist(self):
        return list(self.values)

    def __getitem__(self, k):
        return wrap(self._df[k._df if isinstance(k, Frame) else k])

    def __iter__(self):
        if self._df.ndim == 1:
            return iter(self.values)
        return iter(self._df)

    def __getattr__(self, k):
        if k in SAME:
            return wrap(getattr(self._df, k))
        raise S.Unsupported(f"DataFrame.{k} of a file")


def wrap(v):
    """result of an operation on a Frame"""
    import pandas as pd

    if isinstance(v, (pd.DataFrame, pd.Series)):
        return Frame(v)
    if isinstance(v, float):
        return exchange(v)
    if hasattr(v, "__getitem__") and type(v).__module__.startswith("pandas.core.indexing"):
        return _Ix(v)
    if callable(v):
        return lambda *a, **k: wrap(v(*a, **k))
    return v


class _Ix:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return wrap(self.v[k])


def pandas():
    """pandas whose read_csv exchanges tokens; everything else is pandas"""
    import types

    import pandas as pd

    m = types.ModuleType("pandas")

    def read_csv(*a, **k):
        return Frame(pd.read_csv(*a, **_dtype(k)))

    m.read_csv = read_csv
    m.read_table = lambda *a, **k: Frame(pd.read_table(*a, **_dtype(k)))
    m.__getattr__ = lambda k: getattr(pd, k)
    return m


def _text(v):
    v = _np.asarray(v)
    if not v.size:
        return v
    o = shims.obj(_np.vectorize(lambda x: exchange(float(x)), otypes=[object])(v))
    if v.dtype.kind == "f" and v.dtype.itemsize < 8:
        o = shims._map(lambda x: shims.narrow(x, v.dtype), o)
    return o


def loadtxt(*a, **k):
    return _text(_np.loadtxt(*a, **_dtype(k)))


def genfromtxt(*a, **k):
    return _text(_np.genfromtxt(*a, **_dtype(k)))


def _dtype(k):
    return {**k, "dtype": _np.dtype(k["dtype"])} if k.get("dtype") is not None else k

"""Stand-ins for numpy / math / numba / scipy / loguru seen by the code under test while
it is executed symbolically.  Anything not listed here is the real library."""
from __future__ import annotations

import itertools
import math as _math
import types

import numpy as _np

from . import explore, sym as S
from .sym import Sym, SymBool, lift

S.FLOAT_FN["f32"] = lambda x: float(_np.float32(x))


class SymArray(_np.ndarray):
    """object array whose astype(float) keeps symbolic elements"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get("out")
        if method == "__call__" and ufunc.__name__ in _CMP and not out:
            f = _CMP[ufunc.__name__]
            ins = [_np.asarray(x, dtype=object) for x in inputs]
            B = _np.broadcast_arrays(*ins)
            r = _np.empty(B[0].shape, dtype=object)
            for i in _np.ndindex(r.shape):
                r[i] = f(*[b[i] for b in B])
            return r[()] if r.ndim == 0 else r.view(SymArray)
        ins = tuple(x.view(_np.ndarray) if isinstance(x, SymArray) else x for x in inputs)
        if out:
            kw["out"] = tuple(x.view(_np.ndarray) if isinstance(x, SymArray) else x for x in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out:
            return out[0]
        if isinstance(r, _np.ndarray):
            return r[()] if r.ndim == 0 else view(r)
        return r

    def __getitem__(self, k):
        return super().__getitem__(_index(k))

    def __setitem__(self, k, v):
        super().__setitem__(_index(k), v)

    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            r = _cast(self, dtype)
            if r is not None:
                return r
        r = super().astype(dtype, *a, **k)
        return obj(r) if r.dtype.kind == "f" else r

    def dot(self, o, *a, **k):
        return dot(self, o)

    def round(self, decimals=0, out=None):
        return _elem(lambda x: lift(x).__round__(decimals))(self)

    def std(self, *a, **k):
        return std(self, *a, **k)

    def var(self, *a, **k):
        return var_(self, *a, **k)

    def argsort(self, *a, **k):
        if self.ndim == 1:
            idx = sorted(range(len(self)), key=_CmpKey.make(self))
            return _np.array(idx)
        return super().argsort(*a, **k)


def _index(k):
    """masks of symbolic conditions are decided element by element"""
    if isinstance(k, _np.ndarray) and k.dtype == object and k.size and all(isinstance(x, (SymBool, bool, _np.bool_)) for x in k.ravel()):
        m = _np.empty(k.shape, dtype=bool)
        for i in _np.ndindex(k.shape):
            m[i] = bool(k.view(_np.ndarray)[i])
        return m
    if isinstance(k, tuple):
        return tuple(_index(x) if isinstance(x, _np.ndarray) else x for x in k)
    return k


def _c2(op):
    def f(x, y):
        r = op(x, y)
        return r if isinstance(r, SymBool) else (S.TRUE if r else S.FALSE)

    return f


_CMP = {
    "greater": _c2(lambda x, y: x > y),
    "greater_equal": _c2(lambda x, y: x >= y),
    "less": _c2(lambda x, y: x < y),
    "less_equal": _c2(lambda x, y: x <= y),
    "equal": _c2(lambda x, y: x == y),
    "not_equal": _c2(lambda x, y: x != y),
    "logical_not": lambda x: S.s_not(x),
    "logical_and": lambda x, y: S.s_and(x, y),
    "logical_or": lambda x, y: S.s_or(x, y),
    "isnan": lambda x: isnan_s(x),
    "isfinite": lambda x: isfinite_s(x),
}


def narrow(x, dt):
    """x rounded to single or half precision: a number, or an arbitrary function of x"""
    x = lift(x)
    if x.is_const():
        return lift(float(dt.type(float(x.const()))))
    return S.mk_fn("f32" if dt.itemsize == 4 else "f16", x)


class _CmpKey:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    @staticmethod
    def make(arr):
        return lambda i: _CmpKey(arr[i])


def view(a):
    if isinstance(a, _np.ndarray) and a.dtype == object and not isinstance(a, SymArray):
        return a.view(SymArray)
    return a


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, _np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def obj(a):
    """float array -> object array of the same (exact) values"""
    if isinstance(a, _np.ndarray):
        if a.dtype.kind == "f":
            if a.ndim == 0:
                return lift_c(a.item())
            r = _np.empty(a.shape, dtype=object)
            it = _np.nditer(a, flags=["multi_index"])
            for x in it:
                r[it.multi_index] = lift_c(float(x))
            return r.view(SymArray)
        return view(a)
    return a


def lift_c(x):
    if isinstance(x, float) and not _math.isfinite(x):
        return x
    return lift(x)


def _cast(a, dtype):
    """None: leave to numpy"""
    if dtype is object:
        return view(a.copy())
    try:
        dt = _np.dtype(dtype)
    except TypeError:
        return None
    if dt.kind == "f":
        if dt.itemsize >= 8:
            return view(_map(lift_c, a))
        return view(_map(lambda x: narrow(x, dt), a))
    if dt.kind in "iu":
        if all(not is_sym(x) or x.is_const() for x in a.ravel()):
            return None if not any(is_sym(x) for x in a.ravel()) else _np.array(
                [int(x) for x in a.ravel()], dtype=dt
            ).reshape(a.shape)
        return view(_map(lambda x: _math.trunc(lift(x)), a))
    return None


def _map(f, a):
    a = _np.asarray(a, dtype=object)
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        r[i] = f(a[i])
    return r.view(SymArray)


def _elem(f, real=None):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = _np.array(x, dtype=object) if has_sym(x) else _np.array(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return _map(f, x)
        if isinstance(x, Sym):
            return f(x)
        if real is None:
            return f(x)
        r = real(x, *a, **k)
        return r

    return g


def _elem2(f, real):
    def g(x, y, *a, **k):
        if has_sym(x) or has_sym(y):
            if isinstance(x, (_np.ndarray, list, tuple)) or isinstance(y, (_np.ndarray, list, tuple)):
                X, Y = _np.broadcast_arrays(_np.asarray(x, dtype=object), _np.asarray(y, dtype=object))
                r = _np.empty(X.shape, dtype=object)
                for i in _np.ndindex(X.shape):
                    r[i] = f(X[i], Y[i])
                return r.view(SymArray)
            return f(x, y)
        return real(x, y, *a, **k)

    return g


def sign_scalar(x):
    if isinstance(x, float) and not _math.isfinite(x):
        return _np.sign(x)
    x = lift(x)
    if x.is_const():
        c = x.const()
        return (c > 0) - (c < 0)
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def fmax(x, y):
    return x if bool(lift(x) >= y) else y


def fmin(x, y):
    return x if bool(lift(x) <= y) else y


def norm(x, ord=None, axis=None, keepdims=False):
    _fault()
    if isinstance(x, (list, tuple)):
        x = _np.array(x, dtype=object) if has_sym(x) else _np.array(x)
    if not has_sym(x):
        if getattr(x, "dtype", None) is None or x.dtype.kind not in "iu" or ord not in (None, 2, "fro"):
            return _np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        x = _map(lift, x.astype(object))  # converted to float before anything is computed: exact
    if ord not in (None, 2, "fro"):
        raise S.Unsupported(f"norm ord={ord}")
    x = _np.asarray(x, dtype=object)
    sq = (x * x).sum(axis=axis, keepdims=keepdims)
    if isinstance(sq, _np.ndarray):
        return _map(m_sqrt, sq)
    return m_sqrt(sq)


def dot(a, b, out=None):
    _fault("dot")
    if has_sym(a) or has_sym(b):
        r = _np.dot(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        return view(r)
    return _np.dot(a, b)


def einsum(spec, *ops, **k):
    if not any(has_sym(o) for o in ops):
        return _np.einsum(spec, *ops, **k)
    if not isinstance(spec, str):
        raise S.Unsupported("einsum sublist format")
    ins, _, out = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    ops = [_np.asarray(o, dtype=object) for o in ops]
    if any("." in s for s in ins):
        raise S.Unsupported("einsum ellipsis")
    if "->" not in spec:
        cnt = {}
        for s in ins:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(ch for ch in cnt if cnt[ch] == 1))
    dim = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dim[ch] = n
    rest = [ch for ch in dim if ch not in out]
    r = _np.empty([dim[c] for c in out], dtype=object)
    for io in itertools.product(*[range(dim[c]) for c in out]):
        e = dict(zip(out, io))
        tot = 0
        for ir in itertools.product(*[range(dim[c]) for c in rest]):
            e.update(zip(rest, ir))
            t = 1
            for s, o in zip(ins, ops):
                t = t * o[tuple(e[c] for c in s)]
            tot = tot + t
        r[io] = tot
    return r[()] if r.ndim == 0 else r.view(SymArray)


def var_(a, axis=None, ddof=0, **k):
    a = _np.asarray(a, dtype=object)
    m = a.mean(axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    return (d * d).sum(axis=axis) / (n - ddof)


def std(a, axis=None, **k):
    if not has_sym(a):
        return _np.std(a, axis=axis, **k)
    v = var_(a, axis=axis, **k)
    return _map(m_sqrt, v) if isinstance(v, _np.ndarray) else m_sqrt(v)


def array_equal(a, b, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return _np.array_equal(a, b)
    a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return bool(S.s_and(*[_eq(x, y) for x, y in zip(a.ravel(), b.ravel())]))


def _eq(x, y):
    if is_sym(x) or is_sym(y):
        if isinstance(x, float) and not _math.isfinite(x) or isinstance(y, float) and not _math.isfinite(y):
            return S.FALSE
        return S.mk_cmp(lift(x) - lift(y), "==")
    return S.to_bool(x == y)


def isclose_s(x, y, rtol=1e-5, atol=1e-8):
    x, y = lift(x), lift(y)
    d = x - y
    if S.is_zero(d):
        return S.TRUE
    return S.mk_cmp(abs(d) - (lift(atol) + lift(rtol) * abs(y)), "<=")


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return _np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    f = lambda x, y: isclose_s(x, y, rtol, atol)  # noqa: E731
    if isinstance(a, (_np.ndarray, list, tuple)) or isinstance(b, (_np.ndarray, list, tuple)):
        X, Y = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        r = _np.empty(X.shape, dtype=object)
        for i in _np.ndindex(X.shape):
            r[i] = f(X[i], Y[i])
        return r.view(SymArray)
    return f(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    if isinstance(r, _np.ndarray):
        return bool(S.s_and(*[S.to_bool(x) for x in r.ravel()]))
    return bool(r)


def where(c, *xy):
    if not xy:
        if has_sym(c):
            c = _np.array([bool(x) for x in _np.asarray(c, dtype=object).ravel()]).reshape(_np.shape(c))
        return _np.where(c)
    x, y = xy
    if not (has_sym(c) or has_sym(x) or has_sym(y)):
        return _np.where(c, x, y)
    C, X, Y = _np.broadcast_arrays(
        _np.asarray(c, dtype=object), _np.asarray(x, dtype=object), _np.asarray(y, dtype=object)
    )
    r = _np.empty(C.shape, dtype=object)
    for i in _np.ndindex(C.shape):
        r[i] = X[i] if bool(C[i]) else Y[i]
    return r[()] if r.ndim == 0 else r.view(SymArray)


def isfinite_s(x):
    return not (isinstance(x, float) and not _math.isfinite(x))


def isnan_s(x):
    return isinstance(x, float) and _math.isnan(x)


# -- math -----------------------------------------------------------------------------
def _sc(x):
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return x.item()
    return x


def m_sqrt(x):
    x = _sc(x)
    if isinstance(x, float) and not _math.isfinite(x):
        return x
    if is_sym(x) or isinstance(x, S.Fraction):
        return S.mk_sqrt(x)
    return lift(x).sqrt() if isinstance(x, int) else S.mk_sqrt(x)


def _fault(kind=""):
    if explore.CTX is not None and FAULT["hook"] is not None and kind not in FAULT["skip"]:
        FAULT["hook"]()


FAULT = {"hook": None, "skip": ()}


def m_log(x, base=None):
    x = _sc(x)
    _fault()
    if isinstance(x, float) and not _math.isfinite(x):
        return x
    r = S.mk_fn("log", x)
    return r if base is None else r / m_log(base)


def m_acos(x):
    x = _sc(x)
    _fault()
    if isinstance(x, float) and not _math.isfinite(x):
        return x
    return S.mk_fn("acos", x)


def _m1(name):
    def f(x):
        x = _sc(x)
        if isinstance(x, float) and not _math.isfinite(x):
            return x
        return getattr(lift(x), name)()

    return f


def m_hypot(*xs):
    return S.mk_sqrt(sum((lift(x) * lift(x) for x in xs), lift(0)))


class ShimModule(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._real, k)


MATH = ShimModule(
    "math",
    _math,
    dict(
        sqrt=m_sqrt,
        log=m_log,
        acos=m_acos,
        asin=_m1("arcsin"),
        atan=_m1("arctan"),
        atan2=lambda y, x: lift(_sc(y)).arctan2(_sc(x)),
        sin=_m1("sin"),
        cos=_m1("cos"),
        tan=_m1("tan"),
        exp=_m1("exp"),
        hypot=m_hypot,
        dist=lambda p, q: m_hypot(*[lift(a) - lift(b) for a, b in zip(p, q)]),
        fabs=lambda x: abs(lift(_sc(x))),
        radians=_m1("radians"),
        degrees=_m1("degrees"),
        floor=lambda x: S.floor_(x) if is_sym(x) else _math.floor(x),
        ceil=lambda x: -S.floor_(-x) if is_sym(x) else _math.ceil(x),
        trunc=lambda x: x.__trunc__() if is_sym(x) else _math.trunc(x),
        fsum=lambda it: sum((lift(x) for x in it), lift(0)),
        copysign=lambda x, y: abs(lift(x)) if bool(lift(y) >= 0) else -abs(lift(x)),
        fmod=lambda x, y: lift(x) - lift(y) * _math.trunc(lift(x) / y),
        remainder=lambda x, y: lift(x) - lift(y) * S.mk_fn("rint", lift(x) / y),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: S.TRUE
        if S.is_zero(lift(a) - b)
        else S.mk_cmp(abs(lift(a) - b) - _maxs(lift(rel_tol) * _maxs(abs(lift(a)), abs(lift(b))), lift(abs_tol)), "<="),
        isnan=lambda x: isnan_s(x),
        isfinite=lambda x: isfinite_s(x),
        isinf=lambda x: isinstance(x, float) and _math.isinf(x),
        pow=lambda x, y: lift(x) ** y,
        prod=lambda it, start=1: _prod(it, start),
    ),
)


def _maxs(a, b):
    return a if bool(a >= b) else b


def _prod(it, start):
    r = lift(start)
    for x in it:
        r = r * x
    return r


# -- numpy ----------------------------------------------------------------------------
def _flt(dtype):
    if dtype is None:
        return True
    try:
        return _np.dtype(dtype).kind == "f" and _np.dtype(dtype).itemsize >= 8
    except TypeError:
        return False


def _mk(real):
    def f(shape, dtype=None, *a, **k):
        if _flt(dtype):
            return obj(real(shape, float, *a, **k)) if real is not _np.empty else _fillobj(shape, lift(0))
        return real(shape, dtype, *a, **k)

    return f


def _fillobj(shape, v):
    r = _np.empty(shape, dtype=object)
    r.fill(v)
    return r.view(SymArray)


def _mklike(real, v):
    def f(a, dtype=None, *x, **k):
        if dtype is None and _np.asarray(a).dtype.kind in "fO" or dtype is not None and _flt(dtype):
            shp = k.get("shape")
            return _fillobj(_np.shape(a) if shp is None else shp, lift(v))
        return real(a, dtype, *x, **k)

    return f


def full(shape, v, dtype=None, **k):
    if isinstance(v, (Sym, float)) or (dtype is not None and _flt(dtype)):
        return _fillobj(shape, lift_c(v))
    return _np.full(shape, v, dtype, **k)


def full_like(a, v, dtype=None, **k):
    if isinstance(v, (Sym, float)) or _np.asarray(a).dtype.kind in "fO":
        return _fillobj(_np.shape(a), lift_c(v))
    return _np.full_like(a, v, dtype, **k)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, (Sym, SymBool)):
        r = _np.empty((), dtype=object)
        r[()] = x
        return r.view(SymArray)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        src = x
    elif not isinstance(x, _np.ndarray) and has_sym_deep(x):
        src = _np.array(x, dtype=object)
    else:
        src = None
    if src is not None:
        if dtype is None or dtype is object:
            r = src.copy() if copy else src
        else:
            r = _cast(src, dtype)
            if r is None:
                r = src.astype(dtype)
        if k.get("ndmin"):
            r = _np.array(r, ndmin=k["ndmin"], copy=False)
        return view(r)
    if dtype is not None and not _flt(dtype):
        return _np.array(x, dtype, copy=copy, **k)
    r = _np.array(x, float if dtype is not None else None, copy=copy, **k)
    return obj(r) if r.dtype.kind == "f" else r


def has_sym_deep(x):
    if is_sym(x):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym_deep(y) for y in x)
    return False


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    return array(x, dtype, copy=False, **{q: v for q, v in k.items() if q == "ndmin"})


class _MGrid:
    """np.mgrid with symbolic limits: the number of samples of an axis is
    ceil((stop - start) / step), decided branch by branch up to BOUND"""

    BOUND = 4

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
            single = True
        else:
            single = False
        if not any(is_sym(x) for q in key for x in (q.start, q.stop, q.step)):
            r = obj(_np.mgrid[key[0] if single else key])
            return r.view(SymArray)  # whole numbers stay whole
        axes = [self.axis(s) for s in key]
        g = _np.meshgrid(*[_np.arange(len(a)) for a in axes], indexing="ij")
        out = _np.empty((len(axes),) + g[0].shape, dtype=object)
        for i, a in enumerate(axes):
            for j in _np.ndindex(g[i].shape):
                out[(i,) + j] = a[g[i][j]]
        out = out.view(SymArray)
        return out[0] if single else out

    def axis(self, s):
        start, stop, step = s.start, s.stop, s.step
        start = 0 if start is None else start
        step = 1 if step is None else step
        if isinstance(step, complex):
            raise S.Unsupported("complex step")
        n = count(start, stop, step)
        return [lift(start) + k * lift(step) for k in range(n)]


def count(start, stop, step):
    """ceil((stop-start)/step) as numpy computes it, by branching"""
    start, stop, step = lift(start), lift(stop), lift(step)
    x = (stop - start) / step
    if x.is_const():
        return max(0, _math.ceil(x.const()))
    for n in range(0, _MGrid.BOUND + 1):
        if bool(x <= n):
            return n
    raise explore.Infeasible()


def arange(start, stop=None, step=1, dtype=None, **k):
    if not any(is_sym(x) for x in (start, stop, step)):
        r = _np.arange(start, stop, step, dtype) if stop is not None else _np.arange(start, dtype=dtype)
        return obj(r)
    if stop is None:
        start, stop = 0, start
    n = count(start, stop, step)
    return array([lift(start) + i * lift(step) for i in range(n)])


def linspace(start, stop, num=50, endpoint=True, **k):
    if k.get("retstep"):
        raise S.Unsupported("linspace retstep")
    num = int(num)
    div = (num - 1) if endpoint else num
    return array([lift(start) + (lift(stop) - start) * i / max(div, 1) for i in range(num)])


def clip(a, lo, hi, *x, **k):
    if not (has_sym(a) or has_sym(lo) or has_sym(hi)):
        return _np.clip(a, lo, hi, *x, **k)

    def f(v):
        if lo is not None and bool(lift(v) < lo):
            return lo
        if hi is not None and bool(lift(v) > hi):
            return hi
        return v

    return _map(f, a) if isinstance(a, _np.ndarray) else f(a)


def mod(x, y):
    return lift(x) % lift(y)


def npall(a, axis=None, **k):
    if has_sym_deep(a) and axis is None:
        return bool(S.s_and(*[S.to_bool(x) for x in _np.asarray(a, dtype=object).ravel()]))
    return _np.all(a, axis=axis, **k)


def npany(a, axis=None, **k):
    if has_sym_deep(a) and axis is None:
        return bool(S.s_or(*[S.to_bool(x) for x in _np.asarray(a, dtype=object).ravel()]))
    return _np.any(a, axis=axis, **k)


def det(a):
    a = _np.asarray(a, dtype=object)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = 0
    for j in range(n):
        minor = _np.delete(_np.delete(a, 0, 0), j, 1)
        t = t + (-1) ** j * a[0, j] * det(minor)
    return t


def _gen(name):
    real = getattr(_np, name)

    def f(*a, **k):
        r = real(*a, **k)
        return view(r) if isinstance(r, _np.ndarray) else r

    return f


LINALG = ShimModule("numpy.linalg", _np.linalg, dict(norm=norm, det=det))


def _confsym():
    from . import confsym

    return confsym


class _F64(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.float64, Sym))


class _float64(metaclass=_F64):
    """numpy.float64: a type, a dtype and a conversion"""

    dtype = _np.dtype("f8")

    def __new__(cls, x=0.0):
        if has_sym_deep(x):
            return view(x) if isinstance(x, _np.ndarray) else lift(x)
        return _np.float64(x)


class _F32(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.float32)


class _float32(metaclass=_F32):
    """numpy.float32: a type, a dtype and a conversion"""

    dtype = _np.dtype("f4")

    def __new__(cls, x=0.0):
        if has_sym_deep(x):
            return _map(lambda v: narrow(v, cls.dtype), x) if isinstance(x, _np.ndarray) else narrow(x, cls.dtype)
        return _np.float32(x)


class _float16(_float32):
    dtype = _np.dtype("f2")


_un = {
    "sqrt": m_sqrt,
    "log": m_log,
    "arccos": m_acos,
    "arcsin": _m1("arcsin"),
    "arctan": _m1("arctan"),
    "sin": _m1("sin"),
    "cos": _m1("cos"),
    "tan": _m1("tan"),
    "exp": _m1("exp"),
    "radians": _m1("radians"),
    "deg2rad": _m1("radians"),
    "degrees": _m1("degrees"),
    "rad2deg": _m1("degrees"),
    "sign": sign_scalar,
    "abs": lambda x: abs(x),
    "absolute": lambda x: abs(x),
    "fabs": lambda x: abs(x),
    "square": lambda x: x * x,
    "negative": lambda x: -x,
    "floor": lambda x: S.floor_(x),
    "ceil": lambda x: -S.floor_(-lift(x)),
    "trunc": lambda x: _math.trunc(lift(x)),
    "rint": lambda x: S.mk_fn("rint", x),
    "isnan": isnan_s,
    "isfinite": isfinite_s,
    "isinf": lambda x: isinstance(x, float) and _math.isinf(x),
    "reciprocal": lambda x: 1 / x,
}
_over = {k: _elem(f, getattr(_np, k)) for k, f in _un.items()}
_over.update(
    hypot=_elem2(lambda x, y: m_hypot(x, y), _np.hypot),
    arctan2=_elem2(lambda y, x: lift(y).arctan2(x), _np.arctan2),
    maximum=_elem2(fmax, _np.maximum),
    minimum=_elem2(fmin, _np.minimum),
    fmax=_elem2(fmax, _np.fmax),
    fmin=_elem2(fmin, _np.fmin),
    mod=_elem2(mod, _np.mod),
    remainder=_elem2(mod, _np.remainder),
    fmod=_elem2(lambda x, y: MATH.fmod(x, y), _np.fmod),
    copysign=_elem2(lambda x, y: MATH.copysign(x, y), _np.copysign),
    power=_elem2(lambda x, y: lift(x) ** y, _np.power),
    float_power=_elem2(lambda x, y: lift(x) ** y, _np.float_power),
    equal=_elem2(_eq, _np.equal),
    not_equal=_elem2(lambda x, y: S.s_not(_eq(x, y)), _np.not_equal),
    zeros=_mk(_np.zeros),
    ones=_mk(_np.ones),
    empty=_mk(_np.empty),
    zeros_like=_mklike(_np.zeros_like, 0),
    ones_like=_mklike(_np.ones_like, 1),
    empty_like=_mklike(_np.empty_like, 0),
    full=full,
    full_like=full_like,
    array=array,
    asarray=asarray,
    asanyarray=asarray,
    ascontiguousarray=asarray,
    asfarray=lambda a, dtype=float: array(a, float),
    atleast_1d=_gen("atleast_1d"),
    atleast_2d=_gen("atleast_2d"),
    copy=lambda a, *x, **k: array(a),
    eye=lambda n, *a, **k: obj(_np.eye(n, *a, **k)),
    identity=lambda n, *a, **k: obj(_np.identity(n, *a, **k)),
    dot=dot,
    vdot=lambda a, b: dot(_np.ravel(a), _np.ravel(b)),
    einsum=einsum,
    array_equal=array_equal,
    array_equiv=array_equal,
    isclose=isclose,
    allclose=allclose,
    where=where,
    clip=clip,
    std=std,
    var=lambda a, **k: var_(a, **k) if has_sym(a) else _np.var(a, **k),
    all=npall,
    any=npany,
    mgrid=_MGrid(),
    arange=arange,
    linspace=linspace,
    linalg=LINALG,
    float64=_float64,
    float32=_float32,
    single=_float32,
    float16=_float16,
    half=_float16,
    loadtxt=lambda *a, **k: _confsym().loadtxt(*a, **k),
    genfromtxt=lambda *a, **k: _confsym().genfromtxt(*a, **k),
    float_=_float64,
    round=lambda a, decimals=0, **k: _elem(lambda x: lift(x).__round__(decimals), None)(a) if has_sym(a) else _np.round(a, decimals, **k),
    fromiter=lambda it, dtype=None, count=-1, **k: array(list(it), dtype),
    nan_to_num=_elem(lambda x: 0 if isnan_s(x) else x, _np.nan_to_num),
)
for _n in (
    "concatenate stack vstack hstack column_stack dstack cross outer inner matmul tensordot transpose reshape "
    "ravel insert append delete roll flip repeat tile broadcast_to mean sum prod cumsum diff squeeze "
    "expand_dims moveaxis swapaxes take diag meshgrid apply_along_axis vectorize block split array_split "
    "add subtract multiply divide true_divide average trace rot90 sort kron triu tril fill_diagonal"
).split():
    if _n in ("vectorize", "meshgrid", "split", "array_split", "fill_diagonal"):
        continue
    _over[_n] = _gen(_n)


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return view(_np.mean(a, axis=axis))
    a = _np.asarray(a, dtype=object)
    w = _np.asarray(weights, dtype=object)
    if w.ndim == 1 and axis is not None and a.ndim > 1:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
    return view((a * w).sum(axis=axis) / (w * _np.ones_like(a)).sum(axis=axis))


_over["average"] = np_average


class _Vectorize(_np.vectorize):
    def __init__(self, pyfunc, *a, **k):
        k["otypes"] = [object]
        super().__init__(pyfunc, **{q: v for q, v in k.items() if q in ("otypes", "excluded", "signature")})

    def __call__(self, *a, **k):
        r = super().__call__(*a, **k)
        return view(r)


_over["vectorize"] = _Vectorize
NP = ShimModule("numpy", _np, _over)


# -- numba ----------------------------------------------------------------------------
def _jit(*a, **k):
    def deco(f):
        import functools

        @functools.wraps(f)
        def g(*x, **y):
            if explore.CTX is not None:
                explore.CTX.jit += 1
            try:
                return f(*x, **y)
            finally:
                if explore.CTX is not None:
                    explore.CTX.jit -= 1

        g.py_func = f
        return g

    if len(a) == 1 and callable(a[0]) and not k:
        return deco(a[0])
    return deco


class _Any:
    def __getattr__(self, k):
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __getitem__(self, k):
        return _Any()


NUMBA = types.ModuleType("numba")
NUMBA.jit = NUMBA.njit = NUMBA.vectorize = NUMBA.guvectorize = _jit
NUMBA.prange = range
NUMBA.__getattr__ = lambda k: _Any()


# -- scipy ----------------------------------------------------------------------------
HULL = {"stub": None, "force": False}


class _HullRes:
    pass


def ConvexHull(points, *a, **k):
    from scipy.spatial import ConvexHull as Real

    pts = _np.asarray(points, dtype=object)
    if not HULL["force"] and all(not is_sym(x) or x.is_const() for x in pts.ravel()):
        f = _np.array([[float(x) for x in r] for r in pts])
        h = Real(f, *a, **k)
        r = _HullRes()
        r.points = obj(_np.asarray(h.points))
        # the exact rationals, where the input was not a double
        r.points = _np.array([[lift(x) for x in row] for row in pts], dtype=object).view(SymArray)
        for n in ("simplices", "neighbors", "vertices", "coplanar"):
            setattr(r, n, getattr(h, n))
        r.equations = obj(h.equations)
        r.volume, r.area = lift(h.volume), lift(h.area)
        r.nsimplex, r.npoints, r.ndim = h.nsimplex, h.npoints, h.ndim
        return r
    if HULL["stub"] is None:
        raise S.Unsupported("convex hull of symbolic points")
    f = HULL["stub"]
    if getattr(f, "options", False):  # ConvexHull(points, incremental, qhull_options)
        return f(view(pts), qhull_options=k.get("qhull_options", a[1] if len(a) > 1 else None))
    return f(view(pts))


class _LP:
    def __init__(self):
        self.success = True
        self.status = 0
        self.x = None


def linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, *a, **k):
    from scipy.optimize import linprog as real

    def conc(m):
        if m is None:
            return None
        m = _np.asarray(m, dtype=object)
        return _np.array([float(x) for x in m.ravel()]).reshape(m.shape)

    try:
        args = [conc(m) for m in (c, A_ub, b_ub, A_eq, b_eq)]
    except S.Unsupported:
        # contract: the point asked about is in the hull of the columns
        return _LP()
    return real(*args, *a, **k)


import scipy.optimize as _sopt  # noqa: E402
import scipy.spatial as _sspa  # noqa: E402

SOPT = ShimModule("scipy.optimize", _sopt, dict(linprog=linprog))
SSPA = ShimModule("scipy.spatial", _sspa, dict(ConvexHull=ConvexHull))


# -- loguru ---------------------------------------------------------------------------
class _Logger:
    def __getattr__(self, k):
        return lambda *a, **k: None


LOGURU = types.ModuleType("loguru")
LOGURU.logger = _Logger()

"""Exact symbolic reals: normal form used while the real code is executed.

A value is   sum_k  N_k / D_k   with N_k a (Laurent) polynomial with rational
coefficients over *atoms* and D_k a product of polynomial factors.  Atoms are input
variables, square roots (s with s*s = P, s >= 0), and applications of functions that the
solver treats as uninterpreted (log, acos, sin, ... each with the identities listed in
`mk_fn`).  Arithmetic here only rewrites with identities of the real field, so it never
changes the value denoted; deciding branch conditions and assertions is left to the
solver (solve.py).
"""
from __future__ import annotations

import cmath
import math
import numbers
import random
from fractions import Fraction

import numpy as _np

ZERO_MONO = ()


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "data", "sq", "fp", "positive", "deps", "zname")

    def __init__(self, id, kind, name, data=None):
        self.id = id
        self.kind = kind  # 'var' | 'sqrt' | 'fn'
        self.name = name
        self.data = data
        self.sq = None  # Poly equal to atom**2, if any
        self.fp = None  # fingerprint values
        self.positive = False
        self.zname = None


ATOMS: list[Atom] = []
_BYVAR: dict[str, Atom] = {}
_SQRT: dict = {}
_FN: dict = {}
_rng = random.Random(20240611)
NFP = 2


def reset_all():
    ATOMS.clear()
    _BYVAR.clear()
    _SQRT.clear()
    _FN.clear()
    _FACTORS.clear()
    _FACTOR_ID.clear()
    _PROD.clear()
    _ZERO.clear()
    _RATP.clear()
    _RAT.clear()
    HINTS.clear()
    _sqf_cache.clear()
    _rng.seed(20240611)


def _new_atom(kind, name, data=None):
    a = Atom(len(ATOMS), kind, name, data)
    a.zname = f"{kind}_{a.id}_{name}" if kind != "var" else name
    ATOMS.append(a)
    return a


def var(name: str, positive=False) -> "Sym":
    a = _BYVAR.get(name)
    if a is None:
        a = _new_atom("var", name)
        a.fp = [complex(_rng.uniform(0.3, 2.7), 0.0) for _ in range(NFP)]
        _BYVAR[name] = a
        a.positive = positive
    return Sym({(): Poly({((a.id, 1),): 1})})


# ----------------------------------------------------------------------------- polys
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            g = e + f
            if g:
                out.append((a, g))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


_PROD: dict = {}
HINTS: list = []  # polynomials whose squares are looked for under square roots


def divide_exact(p: "Poly", h: "Poly"):
    """p / h if exact (plain polynomials), else None"""
    if not h.t or any(e < 0 for m in p.t for _, e in m):
        return None
    ids = sorted(p.atoms() | h.atoms())
    if not h.atoms() <= p.atoms():
        return None
    idx = {a: i for i, a in enumerate(ids)}
    n = len(ids)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)

    P = {vec(m): c for m, c in p.t.items()}
    Hd = {vec(m): c for m, c in h.t.items()}
    lh = max(Hd)
    ch = Hd[lh]
    out = {}
    import heapq

    heap = [tuple(-x for x in v) for v in P]
    heapq.heapify(heap)
    steps = 0
    while P:
        v = tuple(-x for x in heapq.heappop(heap))
        c = P.get(v)
        if c is None:
            continue
        q = tuple(a - b for a, b in zip(v, lh))
        if min(q) < 0:
            return None
        steps += 1
        if steps > 4000:
            return None
        k = Fraction(c) / ch
        out[q] = k
        for w, cw in Hd.items():
            t = tuple(a + b for a, b in zip(q, w))
            old = P.get(t)
            if old is None:
                P[t] = -k * cw
                heapq.heappush(heap, tuple(-x for x in t))
            else:
                nv = old - k * cw
                if nv:
                    P[t] = nv
                else:
                    del P[t]
    return Poly({tuple((ids[i], e) for i, e in enumerate(q) if e): _norm(c) for q, c in out.items()})


class Poly:
    __slots__ = ("t", "_h", "_z", "_fp")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._z = None
        self._fp = None

    # -- basic
    def __bool__(self):
        return bool(self.t)

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def scale(self, k):
        if not k:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def mul_mono(self, mono, c=1):
        if not mono:
            return self.scale(c)
        r = Poly({_mono_mul(m, mono): _norm(k * c) for m, k in self.t.items()})
        return _reduce(r)

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly({})
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        big = len(self.t) * len(o.t) > 200
        if big:
            k = (self, o)
            hit = _PROD.get(k)
            if hit is not None:
                return hit
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        res = _reduce(Poly({m: _norm(c) for m, c in r.items() if c}))
        if big:
            if len(_PROD) > 20000:
                _PROD.clear()
            _PROD[k] = res
        return res

    def pow(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    # -- fingerprint (complex floats at fixed random points)
    def fp(self):
        if self._fp is None:
            out = []
            for k in range(NFP):
                s = 0j
                for m, c in self.t.items():
                    v = complex(float(c)) if abs(c) < 1e300 else complex(c)
                    for a, e in m:
                        v *= ATOMS[a].fp[k] ** e
                    s += v
                out.append(s)
            self._fp = out
        return self._fp


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


ONE = Poly({(): 1})
NIL = Poly({})


def _reduce(p: Poly) -> Poly:
    """replace atom**k (k >= 2) by atom.sq where one is defined"""
    todo = None
    for m in p.t:
        for a, e in m:
            if e >= 2 and ATOMS[a].sq is not None:
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    out: dict = {}

    def acc(q):
        for m, c in q.t.items():
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)

    # group by the square part, to multiply once per distinct one
    groups: dict = {}
    for m, c in p.t.items():
        sqs = []
        rest = []
        for a, e in m:
            if e >= 2 and ATOMS[a].sq is not None:
                sqs.append((a, e // 2))
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        g = groups.setdefault(tuple(sqs), {})
        r = tuple(rest)
        v = g.get(r, 0) + c
        g[r] = v
    for sqs, terms in groups.items():
        q = Poly({m: c for m, c in terms.items() if c})
        for a, k in sqs:
            base = ATOMS[a].sq
            for _ in range(k):
                q = q * base
        acc(q)
    return Poly({m: _norm(c) for m, c in out.items()})


# ----------------------------------------------------------------------- den factors
_FACTORS: list[Poly] = []
_FACTOR_ID: dict[Poly, int] = {}


def _factor_id(p: Poly) -> int:
    i = _FACTOR_ID.get(p)
    if i is None:
        i = len(_FACTORS)
        _FACTORS.append(p)
        _FACTOR_ID[p] = i
    return i


def split_content(p: Poly):
    """p = c * mono * prim with c rational, mono over invertible atoms, prim primitive
    with leading coefficient positive."""
    if not p.t:
        return 0, (), NIL
    num = 0
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator)
        else:
            num = math.gcd(num, abs(c))
    cont = Fraction(num, den)
    # common monomial
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    common[a] = min(common[a], 0)
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
        if common is not None:
            common = {a: e for a, e in common.items() if e}
    mono = tuple(sorted(common.items()))
    lead = p.t[max(p.t)]
    if lead < 0:
        cont = -cont
    inv = tuple((a, -e) for a, e in mono)
    if inv:
        prim = Poly({_mono_mul(m, inv): _norm(c / cont if isinstance(c, Fraction) else Fraction(c) / cont) for m, c in p.t.items()})
    else:
        prim = Poly({m: _norm(Fraction(c) / cont) for m, c in p.t.items()})
    return _norm(cont), mono, prim


def _den_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    r = dict(d1)
    for f, e in d2:
        r[f] = r.get(f, 0) + e
    return tuple(sorted((f, e) for f, e in r.items() if e))


# -------------------------------------------------------------------------- exceptions
class Unsupported(Exception):
    pass


class Undefined(Exception):
    """division by an identically zero value"""


# ------------------------------------------------------------------------------- Sym
def to_frac(x):
    if isinstance(x, (bool, _np.bool_)):
        return int(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return _norm(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Undefined("nan/inf constant")
        return _norm(Fraction(x))
    raise TypeError(f"cannot lift {type(x)}")


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    f = to_frac(x)
    return Sym({(): Poly({(): f})}) if f else Sym({})


NAN = float("nan")

# hooks installed by explore.py
HOOK_BOOL = None  # callable(SymBool) -> bool
HOOK_NONZERO = None  # callable(Sym) -> None      record "this divisor is not zero"
HOOK_POSITIVE = None  # callable(atom id) -> bool     the path knows this atom is > 0
HOOK_ZERODIV = None  # callable() -> value or raises   division by exact zero


def _isbad(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


class Sym:
    __slots__ = ("g", "_fp")

    def __init__(self, groups):
        self.g = groups
        self._fp = None

    # ---- inspection
    def is_const(self):
        return all(not d and p.is_const() for d, p in self.g.items())

    def const(self):
        return self.g[()].const() if self.g else 0

    def key(self):
        return frozenset((d, p.key()) for d, p in self.g.items())

    def fp(self):
        if self._fp is None:
            out = [0j] * NFP
            for d, p in self.g.items():
                v = list(p.fp())
                for f, e in d:
                    q = _FACTORS[f].fp()
                    for k in range(NFP):
                        v[k] = v[k] / q[k] ** e if q[k] else complex(1e9)
                for k in range(NFP):
                    out[k] += v[k]
            self._fp = out
        return self._fp

    def __hash__(self):
        # dictionaries and sets have to ask whether two reals are equal, which is decided
        # branch by branch
        return hash(self.const()) if self.is_const() else 0

    def atoms(self, deep=True):
        seen = set()
        todo = set()
        for d, p in self.g.items():
            todo |= p.atoms()
            for f, _ in d:
                todo |= _FACTORS[f].atoms()
        if not deep:
            return todo
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo |= atom_deps(a) - seen
        return seen

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if _isbad(o):
            return o
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        if not o.g:
            return self
        if not self.g:
            return o
        r = dict(self.g)
        for d, p in o.g.items():
            q = r.get(d)
            if q is None:
                r[d] = p
            else:
                q = q + p
                if q:
                    r[d] = q
                else:
                    del r[d]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({d: -p for d, p in self.g.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if _isbad(o):
            return -o
        try:
            return self + (-lift(o))
        except TypeError:
            return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if _isbad(o):
            return NAN
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        if not self.g or not o.g:
            return Sym({})
        r: dict = {}
        for d1, p1 in self.g.items():
            for d2, p2 in o.g.items():
                d, p = _mul_group(d1, p1, d2, p2)
                q = r.get(d)
                q = p if q is None else q + p
                r[d] = q
        return Sym({d: p for d, p in r.items() if p})

    __rmul__ = __mul__

    def recip(self):
        if not self.g:
            raise Undefined("division by zero")
        s = self if len(self.g) == 1 else combine(self)
        ((d, p),) = s.g.items()
        if not p:
            raise Undefined("division by zero")
        cont, mono, prim = split_content(p)
        num_mono = []
        den = {}
        for a, e in mono:
            if ATOMS[a].kind == "sqrt":
                num_mono.append((a, -e))
            elif e > 0:
                f = _factor_id(Poly({((a, 1),): 1}))
                den[f] = den.get(f, 0) + e
            else:
                num_mono.append((a, -e))
        num = ONE
        if not prim.is_const():
            hit = rationalise(prim)
            if hit is not None:
                conj, c2, lau, dens = hit
                num = conj
                cont = cont * c2
                num_mono += lau
                for f in dens:
                    den[f] = den.get(f, 0) + 1
            else:
                f = _factor_id(prim)
                den[f] = den.get(f, 0) + 1
        for f, e in d:
            num = num * _FACTORS[f].pow(e)
        mm = ()
        for a, e in num_mono:
            mm = _mono_mul(mm, ((a, e),))
        num = num.mul_mono(mm, _norm(1 / Fraction(cont)))
        return Sym({tuple(sorted(den.items())): num})

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if _isbad(o):
            return NAN if math.isnan(o) else 0
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        if is_zero(o):
            if HOOK_ZERODIV is not None:
                return HOOK_ZERODIV(self)
            raise Undefined("division by zero")
        if not o.is_const() and HOOK_NONZERO is not None:
            HOOK_NONZERO(o)
        return self * o.recip()

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if _isbad(o):
            return NAN
        return lift(o) / self

    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.is_const():
                raise Unsupported("symbolic exponent")
            n = n.const()
        n = to_frac(n)
        if isinstance(n, int):
            if n < 0:
                return 1 / (self ** (-n))
            r = lift(1)
            for _ in range(n):
                r = r * self
            return r
        if n == Fraction(1, 2):
            return self.sqrt()
        if n == Fraction(-1, 2):
            return 1 / self.sqrt()
        if n.denominator == 2:
            return self.sqrt() ** n.numerator
        raise Unsupported(f"power {n}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return lift(abs(self.const()))
        if only_positive_atoms(self):
            return self
        if self >= 0:
            return self
        return -self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return lift(o) % self

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(lift(o) / self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __trunc__(self):
        if self >= 0:
            return floor_(self)
        return -floor_(-self)

    def __round__(self, n=None):
        if self.is_const():  # as numpy and python: half to even
            return lift(round(Fraction(self.const()), n or 0))
        return mk_fn("round%s" % (n,), self)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and isinstance(self.const(), int):
            return self.const()
        raise TypeError("symbolic value used as an index")

    # ---- comparisons
    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list, dict)):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if _isbad(o):
            if math.isnan(o):
                return op == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return mk_cmp(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return bool(self != 0)

    # ---- numpy object-ufunc hooks
    def sqrt(self):
        return mk_sqrt(self)

    def log(self):
        return mk_fn("log", self)

    def exp(self):
        return mk_fn("exp", self)

    def arccos(self):
        return mk_fn("acos", self)

    def arcsin(self):
        return lift(math.pi) / 2 - mk_fn("acos", self)

    def arctan(self):
        return mk_fn("atan", self)

    def arctan2(self, o):
        return mk_atan2(self, lift(o))

    def sin(self):
        return mk_fn("sin", self)

    def cos(self):
        return mk_fn("cos", self)

    def tan(self):
        return mk_fn("sin", self) / mk_fn("cos", self)

    def hypot(self, o):
        return mk_sqrt(self * self + lift(o) * lift(o))

    def radians(self):
        return self * DEG

    deg2rad = radians

    def degrees(self):
        return self / DEG

    rad2deg = degrees

    def rint(self):
        return mk_fn("rint", self)

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0)

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return mk_cmp(floor_(self) - self, "==")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)


numbers.Real.register(Sym)
DEG = None  # set below: pi/180 as an atom-free rational of the float


_RAT: dict = {}


def rationalise(p: Poly):
    """1/p = conj / (c * product of known squares * rest): conjugates with respect to the
    square-root atoms of p.  Needs p * conj != 0, which is recorded as a path fact.
    Returns (conj, c, laurent monomial, den factors) or None."""
    if p in _RAT:
        hit = _RAT[p]
    else:
        hit = _RAT[p] = _rationalise(p)
    if hit is not None and HOOK_NONZERO is not None:
        HOOK_NONZERO(Sym({(): hit[4]}))
    return None if hit is None else hit[:4]


def _rationalise(p):
    ats = [a for a in p.atoms()]
    roots = sorted(a for a in ats if ATOMS[a].kind == "sqrt")
    if not roots or len(roots) > 3 or len(p.t) > 80 or any(ATOMS[a].kind == "fn" for a in ats):
        return None
    if any(e < 0 for m in p.t for _, e in m):
        return None
    conj = ONE
    cur = p
    for a in reversed(roots):
        if a not in cur.atoms():
            continue
        flip = Poly({m: (-c if dict(m).get(a, 0) % 2 else c) for m, c in cur.t.items()})
        conj = conj * flip
        cur = cur * flip
        if not cur or len(cur.t) > 600 or len(conj.t) > 600:
            return None
    if any(ATOMS[a].kind == "sqrt" for a in cur.atoms()) or not cur:
        return None
    c, mono, prim = split_content(cur)
    lau, dens = [], []
    for a, e in mono:
        f = _factor_id(Poly({((a, 1),): 1}))
        dens += [f] * e
    # peel known squares of square-root atoms and hints
    for _ in range(4):
        if prim.is_const():
            break
        s = _SQRT.get(prim)
        if s is not None:
            lau.append((s.id, -2))
            prim = ONE
            break
        done = True
        for q, at in list(_SQRT.items()):
            if 1 < len(q.t) < len(prim.t) and q.atoms() <= prim.atoms():
                d = divide_exact(prim, q)
                if d is not None:
                    lau.append((at.id, -2))
                    prim = d
                    done = False
                    break
        if done:
            break
    if not prim.is_const():
        c3, m3, prim = split_content(prim)
        c = c * c3
        for a, e in m3:
            dens += [_factor_id(Poly({((a, 1),): 1}))] * e
        if not prim.is_const():
            dens.append(_factor_id(prim))
        else:
            c = c * prim.const()
    else:
        c = c * prim.const()
    return conj, c, lau, dens, cur


def _mul_group(d1, p1, d2, p2):
    # cancel a numerator equal (up to content) to a denominator factor of the other side
    if d2 and not p1.is_const() and len(p1.t) > 1:
        d2, p1 = _cancel(d2, p1)
    if d1 and not p2.is_const() and len(p2.t) > 1:
        d1, p2 = _cancel(d1, p2)
    d = _den_mul(d1, d2)
    p = p1 * p2
    if d and len(p.t) > 1:
        d, p = _cancel(d, p)
    return _cancel_vars(d, p)


def _cancel(d, p):
    n = len(p.t)
    if not any(len(_FACTORS[f].t) == n for f, _ in d):
        return d, p
    c, m, prim = split_content(p)
    f = _FACTOR_ID.get(prim)
    if f is None:
        return d, p
    dd = dict(d)
    if dd.get(f, 0) > 0:
        dd[f] -= 1
        return tuple(sorted((k, e) for k, e in dd.items() if e)), Poly({m: c})
    return d, p


def _cancel_vars(d, p):
    """cancel plain-variable factors against the monomial content"""
    if not d:
        return d, p
    dd = None
    for f, e in d:
        q = _FACTORS[f]
        if len(q.t) == 1:
            ((m, _),) = q.t.items()
            a = m[0][0]
            k = min((dict(mm).get(a, 0) for mm in p.t), default=0)
            k = min(k, e)
            if k > 0:
                p = Poly({_mono_mul(mm, ((a, -k),)): c for mm, c in p.t.items()})
                dd = dict(d) if dd is None else dd
                dd[f] -= k
    if dd is None:
        return d, p
    return tuple(sorted((f, e) for f, e in dd.items() if e)), p


def combine(s: Sym) -> Sym:
    """single fraction"""
    if len(s.g) <= 1:
        return s
    lcm: dict = {}
    for d in s.g:
        for f, e in d:
            lcm[f] = max(lcm.get(f, 0), e)
    num = NIL
    for d, p in s.g.items():
        dd = dict(d)
        q = p
        for f, e in lcm.items():
            k = e - dd.get(f, 0)
            if k:
                q = q * _FACTORS[f].pow(k)
        num = num + q
    if not num:
        return Sym({})
    return Sym({tuple(sorted(lcm.items())): num})


def clear_laurent(p: Poly) -> Poly:
    """multiply by powers of sqrt atoms so that no exponent is negative (sign kept)"""
    neg: dict = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if not neg:
        return p
    return p.mul_mono(tuple(sorted(neg.items())))


def _maybe_zero(s: Sym):
    return all(abs(v) <= 1e-7 * (1.0 + _mag(s, k)) for k, v in enumerate(s.fp()))


def _mag(s, k):
    # magnitude of the parts: scale for the fingerprint comparison
    tot = 0.0
    for d, p in s.g.items():
        den = 1.0
        for f, e in d:
            q = abs(_FACTORS[f].fp()[k])
            den *= q**e if q else 1e-9
        n = 0.0
        for m, c in p.t.items():
            v = abs(float(c))
            for a, e in m:
                v *= abs(ATOMS[a].fp[k]) ** e
            n += v
        tot += n / den
    return tot


def is_zero(s: Sym) -> bool:
    """True only if s is identically zero (sound, not complete)."""
    if not s.g:
        return True
    if s.is_const():
        return s.const() == 0
    if not _maybe_zero(s):
        return False
    k = s.key()
    hit = _ZERO.get(k)
    if hit is None:
        hit = _is_zero_exact(s)
        if len(_ZERO) > 50000:
            _ZERO.clear()
        _ZERO[k] = hit
    return hit


_ZERO: dict = {}
_RATP: dict = {}


def _rational_factor(f):
    r = _RATP.get(f)
    if r is None:
        r = _RATP[f] = all(ATOMS[a].kind == "var" for a in _FACTORS[f].atoms())
    return r


def _is_zero_exact(s: Sym) -> bool:
    """split by the odd square-root atoms and function atoms of each term: every class has
    a rational function of the inputs as coefficient, and the sum is zero if all are"""
    classes: dict = {}
    for d, p in s.g.items():
        irr = tuple((f, e) for f, e in d if not _rational_factor(f))
        rat = tuple((f, e) for f, e in d if _rational_factor(f))
        for m, c in p.t.items():
            sig = []
            base = []
            den = []
            for a, e in m:
                at = ATOMS[a]
                if at.kind == "var":
                    base.append((a, e))
                elif at.kind == "sqrt":
                    h = e // 2
                    if e - 2 * h:
                        sig.append((a, 1))
                    if h:
                        den.append((a, h))
                else:
                    sig.append((a, e))
            cl = classes.setdefault((irr, tuple(sig)), {})
            q = cl.setdefault((rat, tuple(den)), {})
            b = tuple(base)
            q[b] = q.get(b, 0) + c
    bad = False
    for key, cl in sorted(classes.items(), key=lambda kv: len(kv[1])):
        if not _rational_sum_zero(cl):
            bad = True
            break
    if not bad:
        return True
    if len(classes) <= 6 and sum(len(p.t) for p in s.g.values()) < 400:
        # dependent square roots or irrational denominators: cross-multiply
        c = combine(s)
        if not c.g:
            return True
        ((d, p),) = c.g.items()
        return not clear_laurent(p)
    return False


def _rational_sum_zero(cl) -> bool:
    """sum of  N / (product of var-only polynomials)  identically zero?"""
    items = []
    for (rat, den), t in cl.items():
        t = {m: c for m, c in t.items() if c}
        if not t:
            continue
        e = {("f", f): k for f, k in rat}
        for a, h in den:
            # s^(2h) = data^h
            e[("s", a)] = e.get(("s", a), 0) - h
        items.append([e, Poly(t)])
    if not items:
        return True
    keys = {k for e, _ in items for k in e}
    top = {k: max(e.get(k, 0) for e, _ in items) for k in keys}
    tot: dict = {}
    # Horner-like: merge items with equal exponents first, then lift one key at a time
    work = {}
    for e, p in items:
        kk = tuple(sorted((k, v) for k, v in e.items() if v))
        work[kk] = work[kk] + p if kk in work else p
    for k in sorted(keys, key=lambda k: len(_polyof(k).t)):
        new: dict = {}
        # group by the other exponents
        for kk, p in work.items():
            dd = dict(kk)
            v = dd.pop(k, 0)
            rest = tuple(sorted(dd.items()))
            new.setdefault(rest, []).append((v, p))
        work = {}
        base = _polyof(k)
        for rest, lst in new.items():
            lst.sort(key=lambda t: t[0])
            # sum p_v / base^v  ->  numerator over base^top
            acc = NIL
            cur = None
            for v, p in lst:
                if cur is not None:
                    for _ in range(v - cur):
                        acc = _plain_mul(acc, base)
                acc = acc + p
                cur = v
            for _ in range(top[k] - cur):
                acc = _plain_mul(acc, base)
            if acc:
                work[rest] = acc
    return not work


def _polyof(k):
    return _FACTORS[k[1]] if k[0] == "f" else ATOMS[k[1]].data


def _plain_mul(p, q):
    return p * q


def only_positive_atoms(s: Sym) -> bool:
    """syntactically >= 0"""
    for d, p in s.g.items():
        for f, e in d:
            if e % 2 and not _poly_nonneg(_FACTORS[f]):
                return False
        if not _poly_nonneg(p):
            return False
    return True


def _poly_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (ATOMS[a].kind == "sqrt" or ATOMS[a].positive):
                return False
    return True


# ---------------------------------------------------------------------------- sqrt etc
def _isqrt_frac(c):
    """largest rational r with r*r dividing c nicely: c = r^2 * rest, rest squarefree-ish"""
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    n2 = n * d  # c = n*d / d^2
    r = 1
    rest = n2
    p = 2
    while p * p <= rest and p < 2000:
        while rest % (p * p) == 0:
            rest //= p * p
            r *= p
        p += 1
    s = math.isqrt(rest)
    if s * s == rest:
        r *= s
        rest = 1
    return Fraction(r, d), rest


_sqf_cache: dict = {}


def _square_part(p: Poly):
    """p = q**2 * rest (q, rest polynomials in the same atoms); only for plain
    polynomials of moderate size"""
    k = p.key()
    if k in _sqf_cache:
        return _sqf_cache[k]
    res = (None, p)
    ids = sorted(p.atoms())
    if 1 < len(p.t) <= 40 and len(ids) <= 7 and all(e > 0 for m in p.t for _, e in m):
        # a square part needs even total degree in some sense; quick numeric filter skipped
        import sympy

        R = sympy.ring([f"a{i}" for i in ids], sympy.QQ)[0]
        idx = {a: i for i, a in enumerate(ids)}
        d = {}
        for m, c in p.t.items():
            ex = [0] * len(ids)
            for a, e in m:
                ex[idx[a]] = e
            c = Fraction(c)
            d[tuple(ex)] = sympy.QQ(c.numerator, c.denominator)
        pol = R.from_dict(d)
        coef, facs = pol.sqf_list()
        if any(e >= 2 for _, e in facs):
            q = R.one
            rest = R.ground_new(coef)
            for f, e in facs:
                q = q * f ** (e // 2)
                if e % 2:
                    rest = rest * f

            def back(pp):
                out = {}
                for ex, c in pp.to_dict().items() if hasattr(pp, "to_dict") else dict(pp).items():
                    m = tuple((ids[i], int(e)) for i, e in enumerate(ex) if e)
                    out[m] = _norm(Fraction(int(c.numerator), int(c.denominator)))
                return Poly(out)

            res = (back(q), back(rest))
    _sqf_cache[k] = res
    return res


def mk_sqrt(x) -> "Sym":
    x = lift(x)
    if is_zero(x):
        return lift(0)
    if x.is_const():
        c = x.const()
        if c < 0:
            raise ValueError("math domain error")
        r, rest = _isqrt_frac(c)
        if rest == 1:
            return lift(r)
        return lift(r) * _sqrt_atom(Poly({(): rest}))
    x = combine(x)
    ((d, p),) = x.g.items()
    # make the denominator a perfect square
    out = lift(1)
    for f, e in d:
        q = _FACTORS[f]
        if e % 2:
            p = p * q
            e += 1
        half = Sym({(): q}).__abs__()
        out = out / half ** (e // 2)
    # pull out even Laurent exponents
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if neg:
        mono = tuple(sorted((a, e + (e % 2)) for a, e in neg.items()))
        p = p.mul_mono(mono)
        out = out * Sym({(): Poly({tuple((a, -e // 2) for a, e in mono): 1})})
    if not p:
        return lift(0)
    if p.is_const():
        return out * mk_sqrt(lift(p.const()))
    c, mono, prim = split_content(p)
    if c < 0:
        c, prim = -c, -prim
    r, rest = _isqrt_frac(c)
    out = out * r
    prim = prim.scale(rest)
    odd = []
    for a, e in mono:
        h = e // 2
        if h:
            av = Sym({(): Poly({((a, 1),): 1})})
            out = out * (av if ATOMS[a].kind == "sqrt" or ATOMS[a].positive else abs(av)) ** h
        if e % 2:
            odd.append((a, 1))
    if odd:
        prim = prim.mul_mono(tuple(odd))
    if prim.is_const():
        return out * mk_sqrt(lift(prim.const()))
    for h in HINTS:
        while len(prim.t) >= len(h.t):
            q1 = divide_exact(prim, h)
            if q1 is None:
                break
            q2 = divide_exact(q1, h)
            if q2 is None:
                break
            out = out * abs(Sym({(): h}))
            prim = q2
    if prim.is_const():
        return out * mk_sqrt(lift(prim.const()))
    q, restp = _square_part(prim)
    if q is not None:
        out = out * abs(Sym({(): q}))
        if restp.is_const():
            return out * mk_sqrt(lift(restp.const()))
        prim = restp
    return out * _sqrt_atom(prim)


def _sqrt_atom(p: Poly) -> Sym:
    a = _SQRT.get(p)
    if a is None:
        a = _new_atom("sqrt", "s", p)
        a.fp = [cmath.sqrt(v) for v in p.fp()]
        a.sq = p
        a.positive = True
        _SQRT[p] = a
    return Sym({(): Poly({((a.id, 1),): 1})})


PI_F = Fraction(math.pi)
DEG = PI_F / 180  # radians per degree, exact value of the float pi / 180

_FNIMPL = {
    "log": lambda v: cmath.log(v[0]) if v[0] else complex(-1e9),
    "exp": lambda v: cmath.exp(v[0]),
    "acos": lambda v: cmath.acos(v[0]),
    "atan": lambda v: cmath.atan(v[0]),
    "sin": lambda v: cmath.sin(v[0]),
    "cos": lambda v: cmath.cos(v[0]),
    "atan2": lambda v: cmath.phase(complex(v[1].real, v[0].real)),
}


def mk_fn(name, *args) -> Sym:
    """application of a function the solver sees as uninterpreted.  Identities used:
    log(1) = 0, log(1/x) = -log(x), acos(-x) = pi - acos(x), acos(1) = 0, acos(-1) = pi,
    sin(0) = 0, cos(0) = 1, cos(-x) = cos(x), sin(-x) = -sin(x), sin^2 = 1 - cos^2,
    and f(x) = f(y) whenever x - y is identically zero."""
    args = tuple(lift(a) for a in args)
    x = args[0]
    if name == "log":
        if is_zero(x - 1):
            return lift(0)
        if x.is_const() and x.const() <= 0:
            raise ValueError("math domain error")
    elif name == "acos":
        if x.is_const():
            if x.const() == 1:
                return lift(0)
            if x.const() == -1:
                return lift(PI_F)
            if abs(x.const()) > 1:
                raise ValueError("math domain error")
        if is_zero(x - 1):
            return lift(0)
        if is_zero(x + 1):
            return lift(PI_F)
        if is_zero(x):
            return lift(PI_F / 2)
    elif name == "sin" and is_zero(x):
        return lift(0)
    elif name == "cos" and is_zero(x):
        return lift(1)
    elif name == "atan" and is_zero(x):
        return lift(0)
    table = _FN.setdefault((name, len(args)), {"exact": {}, "list": []})
    k = tuple(a.key() for a in args)
    hit = table["exact"].get(k)
    if hit is not None:
        return hit
    val = None
    for oargs, osym in table["list"]:
        if all(_close(a, b) and is_zero(a - b) for a, b in zip(args, oargs)):
            val = osym
            break
        if len(args) == 1:
            b = oargs[0]
            if name == "log" and _closev(_mulfp(x, b), 1.0) and is_zero(x * b - 1):
                val = -osym
                break
            if name in ("acos", "sin", "cos", "atan") and _closev(_addfp(x, b), 0.0) and is_zero(x + b):
                val = {"acos": lift(PI_F) - osym, "sin": -osym, "cos": osym, "atan": -osym}[name]
                break
    if val is None:
        if name == "sin":
            c = mk_fn("cos", *args)  # make the partner first
        a = _new_atom("fn", name, args)
        try:
            impl = _FNIMPL.get(name)
            fps = [tuple(t.fp()[i] for t in args) for i in range(NFP)]
            if impl:
                a.fp = [impl(v) for v in fps]
            else:
                h = hash(name) % 97
                a.fp = [sum((j + 1.37 + h / 50) * cmath.sin(v[j] * (j + 1.1)) for j in range(len(v))) for v in fps]
        except (ValueError, ZeroDivisionError, OverflowError):
            a.fp = [complex(0.123, 0.456)] * NFP
        if name == "sin":
            a.sq = (lift(1) - c * c).g[()]
        val = Sym({(): Poly({((a.id, 1),): 1})})
        table["list"].append((args, val))
    table["exact"][k] = val
    return val


def mk_atan2(y: Sym, x: Sym) -> Sym:
    """atan2(y, x) = acos(x / |(x, y)|) for y > 0, its opposite for y < 0"""
    if is_zero(y):
        if is_zero(x) or bool(x > 0):
            return lift(0)
        return lift(PI_F)
    r2 = x * x + y * y
    r = lift(1) if all(abs(v - 1) < 1e-6 for v in r2.fp()) and is_zero(r2 - 1) else mk_sqrt(r2)
    a = mk_fn("acos", x * r.recip())
    # for y >= 0 the formula holds as is: square roots in the product do not matter
    p = y
    if len(y.g) == 1:
        ((den, q),) = y.g.items()
        _, mono, _ = split_content(q)
        drop = tuple((i, -e) for i, e in mono if ATOMS[i].kind == "sqrt")
        if drop:
            p = Sym({den: q.mul_mono(drop)})
    if bool(p >= 0):
        return a
    return -a if bool(y < 0) else (lift(0) if bool(x >= 0) else lift(PI_F))


def uf(name, *args) -> Sym:
    return mk_fn(name, *args)


def _close(a, b):
    return all(abs(u - v) <= 1e-7 * (1 + abs(u) + abs(v)) for u, v in zip(a.fp(), b.fp()))


def _closev(fp, c):
    return all(abs(v - c) <= 1e-6 for v in fp)


def _mulfp(a, b):
    return [u * v for u, v in zip(a.fp(), b.fp())]


def _addfp(a, b):
    return [u + v for u, v in zip(a.fp(), b.fp())]


def floor_(x):
    x = lift(x)
    if x.is_const():
        return lift(math.floor(x.const()))
    return mk_fn("floor", x)


def atom_deps(aid):
    a = ATOMS[aid]
    if a.kind == "sqrt":
        return set(a.data.atoms())
    if a.kind == "fn":
        r = set()
        for s in a.data:
            r |= s.atoms(deep=False)
        return r
    return set()


# ------------------------------------------------------------------------- derivative
def diff(s: Sym, seeds: dict, cache=None) -> Sym:
    """derivative of s along `seeds`: {var name: Sym or number}"""
    if cache is None:
        cache = {}

    def datom(aid):
        if aid in cache:
            return cache[aid]
        a = ATOMS[aid]
        if a.kind == "var":
            r = lift(seeds.get(a.name, 0))
        elif a.kind == "sqrt":
            dp = dpoly(a.data)
            r = dp * Fraction(1, 2) * Sym({(): Poly({((aid, -1),): 1})}) if dp.g else lift(0)
        else:
            x = a.data[0]
            dx = dsym(x)
            if not dx.g and len(a.data) == 1:
                r = lift(0)
            elif a.name == "log":
                r = dx * x.recip()
            elif a.name == "acos":
                r = -dx * mk_sqrt(1 - x * x).recip()
            elif a.name == "sin":
                r = dx * mk_fn("cos", x)
            elif a.name == "cos":
                r = -dx * mk_fn("sin", x)
            elif a.name == "exp":
                r = dx * mk_fn("exp", x)
            elif a.name == "atan":
                r = dx * (1 + x * x).recip()
            elif a.name == "atan2":
                y, x = a.data
                r = (x * dsym(y) - y * dsym(x)) * (x * x + y * y).recip()
            else:
                raise Unsupported(f"derivative of {a.name}")
        cache[aid] = r
        return r

    def dpoly(p: Poly):
        tot = lift(0)
        byatom: dict = {}
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1 :]
                q = byatom.setdefault(a, {})
                q[rest] = q.get(rest, 0) + c * e
        for a, t in byatom.items():
            da = datom(a)
            if da.g:
                tot = tot + Sym({(): Poly({m: c for m, c in t.items() if c})}) * da
        return tot

    def dsym(x: Sym):
        tot = lift(0)
        for d, p in x.g.items():
            tot = tot + dpoly(p) * Sym({d: ONE})
            for f, e in d:
                df = dpoly(_FACTORS[f])
                if df.g:
                    tot = tot - Sym({_den_mul(d, ((f, 1),)): p.scale(e)}) * df
        return tot

    return dsym(s)


# ------------------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(s: Sym, env: dict, cache=None, extra_fn=None):
    """float value under env {var: float}"""
    if cache is None:
        cache = {}

    def ev_atom(aid):
        v = cache.get(aid)
        if v is not None:
            return v
        a = ATOMS[aid]
        if a.kind == "var":
            if a.name not in env:
                raise EvalError(a.name)
            v = float(env[a.name])
        elif a.kind == "sqrt":
            t = ev_poly(a.data)
            if t < 0:
                if t > -1e-9:
                    t = 0.0
                else:
                    raise EvalError("sqrt of negative")
            v = math.sqrt(t)
        else:
            xs = [ev(t) for t in a.data]
            try:
                if a.name == "acos":
                    v = math.acos(max(-1.0, min(1.0, xs[0])))
                elif a.name == "log":
                    v = math.log(xs[0])
                elif a.name in ("exp", "sin", "cos", "atan", "atan2", "floor"):
                    v = float(getattr(math, a.name)(*xs))
                elif a.name == "rint":
                    v = float(round(xs[0]))
                elif a.name.startswith("round"):
                    k = a.name[5:]
                    v = float(round(xs[0], None if k == "None" else int(k)))
                elif extra_fn and a.name in extra_fn:
                    v = float(extra_fn[a.name](*xs))
                elif a.name in FLOAT_FN:
                    v = float(FLOAT_FN[a.name](*xs))
                else:
                    raise EvalError(a.name)
            except (ValueError, OverflowError, ZeroDivisionError) as e:
                raise EvalError(str(e)) from None
        cache[aid] = v
        return v

    def ev_poly(p):
        tot = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                x = ev_atom(a)
                if e < 0 and x == 0:
                    raise EvalError("0 division")
                v *= x**e
            tot += v
        return tot

    def ev(x):
        tot = 0.0
        for d, p in x.g.items():
            v = ev_poly(p)
            for f, e in d:
                q = ev_poly(_FACTORS[f])
                if q == 0:
                    raise EvalError("0 division")
                v /= q**e
            tot += v
        return tot

    return ev(lift(s))


FLOAT_FN: dict = {}  # name -> python function, for uninterpreted functions of harnesses


# -------------------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("kind", "p", "op", "args", "name")

    def __init__(self, kind, p=None, op=None, args=None, name=None):
        self.kind = kind  # 'cmp' | 'and' | 'or' | 'not' | 'const' | 'bvar'
        self.p = p
        self.op = op
        self.args = args
        self.name = name

    def key(self):
        if self.kind == "cmp":
            return ("cmp", self.p.key(), self.op)
        if self.kind in ("and", "or"):
            return (self.kind, frozenset(a.key() for a in self.args))
        if self.kind == "not":
            return ("not", self.args[0].key())
        if self.kind == "bvar":
            return ("bvar", self.name)
        return ("const", self.op)

    def is_const(self):
        return self.kind == "const"

    def __bool__(self):
        if self.kind == "const":
            return self.op
        if HOOK_BOOL is None:
            raise Unsupported("branch on a symbolic condition outside exploration")
        return HOOK_BOOL(self)

    def __and__(self, o):
        return s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return s_not(self)

    def logical_not(self):
        return s_not(self)

    def logical_and(self, o):
        return s_and(self, o)

    def logical_or(self, o):
        return s_or(self, o)

    def __xor__(self, o):
        o = to_bool(o)
        return s_or(s_and(self, s_not(o)), s_and(s_not(self), o))

    __rxor__ = __xor__

    # arithmetic use of a truth value forces a decision
    def _n(self):
        return int(bool(self))

    def __int__(self):
        return self._n()

    __index__ = __int__

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else s_not(self)
        if isinstance(o, SymBool):
            return s_not(self ^ o)
        if isinstance(o, int):
            return self._n() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(self.key())

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        if self.kind == "cmp":
            return f"[{show_poly(self.p)} {self.op} 0]"
        if self.kind == "const":
            return str(self.op)
        if self.kind == "bvar":
            return self.name
        return f"{self.kind}({', '.join(map(repr, self.args))})"


TRUE = SymBool("const", op=True)
FALSE = SymBool("const", op=False)
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def to_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return mk_cmp(x, "!=")
    return TRUE if x else FALSE


def s_not(b):
    b = to_bool(b)
    if b.kind == "const":
        return FALSE if b.op else TRUE
    if b.kind == "cmp":
        return SymBool("cmp", p=b.p, op=_NEG[b.op])
    if b.kind == "not":
        return b.args[0]
    if b.kind == "and":
        return s_or(*[s_not(a) for a in b.args])
    if b.kind == "or":
        return s_and(*[s_not(a) for a in b.args])
    return SymBool("not", args=[b])


def s_and(*bs):
    out = []
    for b in bs:
        b = to_bool(b)
        if b.kind == "const":
            if not b.op:
                return FALSE
            continue
        if b.kind == "and":
            out.extend(b.args)
        else:
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SymBool("and", args=out)


def s_or(*bs):
    out = []
    for b in bs:
        b = to_bool(b)
        if b.kind == "const":
            if b.op:
                return TRUE
            continue
        if b.kind == "or":
            out.extend(b.args)
        else:
            out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SymBool("or", args=out)


def mk_cmp(d: Sym, op: str) -> SymBool:
    d = lift(d)
    if d.is_const():
        c = d.const()
        return TRUE if {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op] else FALSE
    if len(d.g) > 1:
        if is_zero(d):
            return mk_cmp(lift(0), op)
        d = combine(d)
        if not d.g:
            return mk_cmp(lift(0), op)
    ((den, p),) = d.g.items()
    p = clear_laurent(p)
    if not p:
        return mk_cmp(lift(0), op)
    c, mono, prim = split_content(p)
    # sign of the monomial content: positive atoms are dropped (they are non-zero or the
    # comparison is against a product that vanishes with them)
    extra = []
    for a, e in mono:
        if HOOK_POSITIVE is not None and HOOK_POSITIVE(a):
            continue
        if ATOMS[a].kind == "sqrt" or ATOMS[a].positive:
            if op in ("<", ">"):
                if ATOMS[a].kind == "sqrt":
                    extra.append(a)
                continue
            extra.append(a)
        else:
            extra.append((a, e))
    q = prim
    if op in ("==", "!="):
        for it in extra:
            a = it if isinstance(it, int) else it[0]
            q = q.mul_mono(((a, 1),))
    else:
        for it in extra:
            if isinstance(it, int):
                q = q.mul_mono(((it, 1),))
            else:
                a, e = it
                q = q.mul_mono(((a, 1 if e % 2 else 2),))
        for f, e in den:
            if e % 2:
                fp = _FACTORS[f]
                if not _poly_nonneg(fp):
                    q = q * fp
        q = clear_laurent(q)
        if not q:
            return mk_cmp(lift(0), op)
    c2, _, q2 = split_content_keep(q)
    sgn = (1 if c > 0 else -1) * (1 if c2 > 0 else -1)
    if sgn < 0:
        op = _FLIP[op]
    if q2.is_const():
        return mk_cmp(lift(q2.const()), op)
    # factors with a syntactic positive sign
    for h in HINTS:
        if len(h.t) > 1 and h.t.get((), 0) > 0 and _poly_nonneg(h):
            while len(q2.t) >= len(h.t):
                q3 = divide_exact(q2, h)
                if q3 is None or not q3:
                    break
                q2 = q3
                if q2.is_const():
                    return mk_cmp(lift(q2.const()), op)
    # a polynomial with a syntactic sign decides the comparison
    if _poly_nonneg(q2):
        if op == "<":
            return FALSE
        if op == ">=":
            return TRUE
        if q2.const() > 0:
            return {"<=": FALSE, ">": TRUE, "==": FALSE, "!=": TRUE}[op]
    return SymBool("cmp", p=q2, op=op)


def split_content_keep(p: Poly):
    """content and sign only (monomial content kept inside)"""
    num = 0
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator)
        else:
            num = math.gcd(num, abs(c))
    cont = Fraction(num, den)
    if p.t[max(p.t)] < 0:
        cont = -cont
    if cont == 1:
        return 1, (), p
    return cont, (), Poly({m: _norm(Fraction(c) / cont) for m, c in p.t.items()})


def bvar(name):
    return SymBool("bvar", name=name)


def eval_bool(b: SymBool, env, cache=None, tol=0.0, bools=None):
    """truth value at a float point (None if within tol of the boundary)"""
    if cache is None:
        cache = {}
    if b.kind == "const":
        return b.op
    if b.kind == "bvar":
        return (bools or {}).get(b.name, False)
    if b.kind == "cmp":
        v = evaluate(Sym({(): b.p}), env, cache)
        scale = 0.0
        for m, c in b.p.t.items():
            t = abs(float(c))
            for a, e in m:
                t *= abs(cache.get(a, 1.0)) ** e
            scale += t
        if abs(v) <= 1e-12 * scale:
            v = 0.0
        if abs(v) < tol * scale and v != 0:
            return None
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[b.op]
    vs = [eval_bool(a, env, cache, tol, bools) for a in b.args]
    if b.kind == "not":
        return None if vs[0] is None else not vs[0]
    if b.kind == "and":
        return False if False in vs else (None if None in vs else True)
    return True if True in vs else (None if None in vs else False)


# ------------------------------------------------------------------------------ show
def show_poly(p, lim=6):
    ts = []
    for i, (m, c) in enumerate(p.t.items()):
        if i >= lim:
            ts.append(f"...({len(p.t)} terms)")
            break
        s = "*".join((ATOMS[a].name if ATOMS[a].kind == "var" else f"{ATOMS[a].name}#{a}") + (f"^{e}" if e != 1 else "") for a, e in m)
        ts.append(f"{c}*{s}" if s else str(c))
    return " + ".join(ts) or "0"


def show(s):
    out = []
    for d, p in list(s.g.items())[:3]:
        t = f"({show_poly(p)})"
        if d:
            t += "/" + "".join(f"[{show_poly(_FACTORS[f], 3)}]^{e}" for f, e in d)
        out.append(t)
    return " + ".join(out) + ("..." if len(s.g) > 3 else "") or "0"

"""z3 back end: translation of the symbolic values, feasibility and assertion queries."""
from __future__ import annotations

import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import sym as S  # noqa: E402

z3.set_param("memory_max_size", 6000)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.norm_discharged = 0  # obligations whose negation normalises to `false`
        self.max_time = 0.0

    def as_dict(self):
        return {
            "queries": self.queries,
            "unsat": self.unsat,
            "sat": self.sat,
            "unknown": self.unknown,
            "solver_time_s": round(self.time, 3),
            "max_query_s": round(self.max_time, 3),
            "negation_normalised_to_false": self.norm_discharged,
        }


STATS = Stats()


def _num(c):
    if isinstance(c, Fraction):
        return z3.RatVal(c.numerator, c.denominator)
    return z3.RealVal(c)


_zcache: dict = {}


def zatom(aid):
    z = _zcache.get(aid)
    if z is None:
        z = _zcache[aid] = z3.Real(S.ATOMS[aid].zname)
    return z


def reset():
    _zcache.clear()


def zpoly(p: S.Poly):
    if p._z is None:
        ts = []
        for m, c in p.t.items():
            fs = [] if c == 1 and m else [_num(c)]
            for a, e in m:
                z = zatom(a)
                if e < 0:
                    for _ in range(-e):
                        fs.append(1 / z)
                else:
                    fs.extend([z] * e)
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        p._z = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
    return p._z


def zsym(s: S.Sym):
    tot = []
    for d, p in s.g.items():
        t = zpoly(p)
        for f, e in d:
            for _ in range(e):
                t = t / zpoly(S._FACTORS[f])
        tot.append(t)
    return z3.Sum(tot) if len(tot) > 1 else (tot[0] if tot else z3.RealVal(0))


def zbool(b: S.SymBool):
    if b.kind == "const":
        return z3.BoolVal(b.op)
    if b.kind == "bvar":
        return z3.Bool(b.name)
    if b.kind == "cmp":
        z = zpoly(b.p)
        return {"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[b.op]
    zs = [zbool(a) for a in b.args]
    if b.kind == "and":
        return z3.And(*zs)
    if b.kind == "or":
        return z3.Or(*zs)
    return z3.Not(zs[0])


def bool_atoms(b: S.SymBool, acc):
    if b.kind == "cmp":
        acc |= b.p.atoms()
    elif b.args:
        for a in b.args:
            bool_atoms(a, acc)
    return acc


def closure(ids):
    seen = set()
    todo = set(ids)
    while todo:
        a = todo.pop()
        if a not in seen:
            seen.add(a)
            todo |= S.atom_deps(a) - seen
    return seen


_leaf: dict = {}


def leaves(b):
    """variables a condition depends on"""
    k = id(b)
    r = _leaf.get(k)
    if r is not None and r[0] is b:
        return r[1]
    v = set()
    for i in closure(bool_atoms(b, set())):
        a = S.ATOMS[i]
        if a.kind not in ("sqrt", "fn"):
            v.add(i)
    _bv(b, v)
    v = frozenset(v)
    _leaf[k] = (b, v)
    return v


def _bv(b, v):
    if b.kind == "bvar":
        v.add(("b", b.name))
    for a in b.args or ():
        _bv(a, v)


def connected(base, b):
    """the conditions of `base` that share variables, directly or not, with b"""
    reach = set(leaves(b))
    rest = [(c, leaves(c)) for c in base]
    out = []
    while True:
        new, keep = [], []
        for c, v in rest:
            (new if not v or v & reach else keep).append((c, v))
        if not new:
            return out
        for c, v in new:
            out.append(c)
            reach |= v
        rest = keep


def axioms(ids, level):
    """level 0: signs of the atoms; level 1: defining equations of square roots, ranges
    and congruence of the uninterpreted functions"""
    out = []
    ids = closure(ids) if level else set(ids)
    fns: dict = {}
    for i in ids:
        a = S.ATOMS[i]
        z = zatom(i)
        if a.kind == "sqrt":
            out.append(z >= 0)
            if level:
                out.append(z * z == zpoly(a.data))
        elif a.kind == "var":
            if a.positive:
                out.append(z > 0)
        else:
            if a.name == "acos":
                out += [z >= 0, z <= _num(S.PI_F)]
            elif a.name in ("sin", "cos"):
                out += [z >= -1, z <= 1]
            elif a.name == "floor" and level:
                x = zsym(a.data[0])
                k = z3.Int(f"fl_{i}")
                out += [z == z3.ToReal(k), z <= x, x < z + 1]
            fns.setdefault((a.name, len(a.data)), []).append(i)
    if level:
        for (name, n), lst in fns.items():
            if len(lst) > 12:
                continue
            for j, u in enumerate(lst):
                for v in lst[:j]:
                    same = z3.And(*[zsym(x) == zsym(y) for x, y in zip(S.ATOMS[u].data, S.ATOMS[v].data)])
                    out.append(z3.Implies(same, zatom(u) == zatom(v)))
    return out


def check(formulas, timeout_ms=2000, want_model=False):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in formulas:
        s.add(f)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t
    STATS.queries += 1
    STATS.time += dt
    STATS.max_time = max(STATS.max_time, dt)
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", (s.model() if want_model else None)
    STATS.unknown += 1
    return "unknown", None


_mono_z: dict = {}


def _zmono(m):
    z = _mono_z.get(m)
    if z is None:
        z = _mono_z[m] = z3.Real("m!" + "_".join(f"{a}^{e}" for a, e in m))
    return z


def _lin(p, monos):
    ts = []
    for m, c in p.t.items():
        if m:
            monos.add(m)
            ts.append(_num(c) * _zmono(m))
        else:
            ts.append(_num(c))
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def _zlin(b, monos):
    if b.kind == "const":
        return z3.BoolVal(b.op)
    if b.kind == "bvar":
        return z3.Bool(b.name)
    if b.kind == "cmp":
        z = _lin(b.p, monos)
        return {"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[b.op]
    zs = [_zlin(a, monos) for a in b.args]
    if b.kind == "and":
        return z3.And(*zs)
    if b.kind == "or":
        return z3.Or(*zs)
    return z3.Not(zs[0])


def linear_abstraction(bools):
    """every monomial a fresh real, with its syntactic sign: unsat here is unsat"""
    monos: set = set()
    fs = [_zlin(b, monos) for b in bools]
    for m in monos:
        strict = True
        ok = True
        for a, e in m:
            at = S.ATOMS[a]
            if at.kind == "var" and at.positive:
                continue
            if at.kind == "sqrt" or e % 2 == 0:
                strict = False
                continue
            ok = False
            break
        if ok:
            fs.append(_zmono(m) > 0 if strict else _zmono(m) >= 0)
    return fs


def decide(bools, timeouts=(500, 2000), want_model=False):
    """satisfiability of a conjunction of SymBool, first over the cheap abstraction"""
    bools = [b for b in bools if not (b.kind == "const" and b.op)]
    if any(b.kind == "const" for b in bools):
        STATS.norm_discharged += 1
        return "unsat", None
    ids: set = set()
    for b in bools:
        bool_atoms(b, ids)
    r, m = check(linear_abstraction(bools), timeouts[0])
    if r == "unsat":
        return r, None
    fs = [zbool(b) for b in bools]
    r, m = check(fs + axioms(ids, 0), timeouts[0])
    if r == "unsat":
        return r, None
    full = fs + axioms(ids, 1)
    if len(closure(ids)) == len(ids) and not any(S.ATOMS[i].kind != "var" for i in ids) and r == "sat" and not want_model:
        return r, None
    return check(full, timeouts[1], want_model)


def model_value(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None

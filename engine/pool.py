"""A pool of concrete points used (a) to see that a branch is feasible without asking the
solver and (b) as candidates for counterexamples.  Never used to prune or to prove."""
from __future__ import annotations

import random
from fractions import Fraction

import numpy as np

from . import sym as S


WIDE = ("rho", "Gc", "den", "con")


class Pool:
    def __init__(self, seed=1, n=1024, ranges=None, den=8):
        self.n = n
        self.rng = random.Random(seed)
        self.ranges = ranges or {}
        self.den = den
        self.val: dict = {}  # atom id -> array
        self.bad = np.zeros(n, dtype=bool)
        self.cmp: dict = {}
        self.vars: dict = {}
        self.unit = None
        self.away = None

    def _wide(self, positive):
        """densities and constants come in every magnitude"""
        k = self.rng.random()
        if k < 0.03 and not positive:
            return 0.0
        frac = self.rng.randint(0, 7) / 8 if self.rng.random() < 0.75 else self.rng.randint(1, 2**36) / 2**37
        m = (1 + frac) * 2.0 ** (self.rng.randint(-2, 1) if k < 0.5 else self.rng.randint(-40, 14))
        return m if positive or self.rng.random() < 0.5 else -m

    def _draw(self, a):
        r = self.ranges.get(a.name)
        if callable(r):
            v = np.array([float(r(self.rng)) for _ in range(self.n)])
        elif not r and a.name.rstrip("0123456789") in WIDE:
            v = np.array([self._wide(a.positive) for _ in range(self.n)])
        else:
            lo, hi = r if r else (-4, 4)
            out = []
            while len(out) < self.n:
                k = self.rng.randint(int(lo * self.den), int(hi * self.den))
                if len(out) % 4 == 3 and k < int(hi * self.den):  # a quarter of the points have many digits
                    out.append((k + self.rng.randint(1, 2**30) / 2**31) / self.den)
                elif k or r:
                    out.append(k / self.den)
            v = np.array(out)
            if a.positive:
                v = np.abs(v)
                v[v == 0] = 1.0 / self.den
        if a.name.startswith(self.ranges.get("*", ())):
            v = v * self.size()
        if a.name.startswith(self.ranges.get("far", ())):
            v = v * self.far()
        self.vars[a.name] = v
        return v

    def size(self):
        """unit of length of each point: half of them 1, the others any magnitude"""
        if self.unit is None:
            self.unit = np.array([1.0 if self.rng.random() < 0.5 else 2.0 ** self.rng.randint(-24, 24) for _ in range(self.n)])
        return self.unit

    def far(self):
        """one point in eight is up to a thousand times farther away"""
        if self.away is None:
            self.away = np.array([1.0 if self.rng.random() < 0.875 else 2.0 ** self.rng.randint(2, 10) for _ in range(self.n)])
        return self.away

    def atom(self, aid):
        v = self.val.get(aid)
        if v is not None:
            return v
        a = S.ATOMS[aid]
        with np.errstate(all="ignore"):
            if a.kind == "var":
                v = self._draw(a)
            elif a.kind == "sqrt":
                t = self.poly(a.data)
                v = np.sqrt(np.where((t < 0) & (t > -1e-9), 0.0, t))
            else:
                xs = [self.sym(x) for x in a.data]
                if a.name == "acos":
                    v = np.arccos(np.clip(xs[0], -1, 1))
                elif a.name == "atan2":
                    v = np.arctan2(*xs)
                elif a.name == "atan":
                    v = np.arctan(xs[0])
                elif a.name in ("log", "exp", "sin", "cos", "floor", "rint"):
                    v = getattr(np, a.name)(xs[0])
                elif a.name.startswith("round") and a.name not in S.FLOAT_FN:
                    v = np.round(xs[0], 0 if a.name[5:] == "None" else int(a.name[5:]))
                elif a.name in S.FLOAT_FN:
                    f = S.FLOAT_FN[a.name]
                    v = np.array([_try(f, t) for t in zip(*xs)]) if xs else np.full(self.n, float(f()))
                else:
                    v = np.full(self.n, np.nan)
        self.val[aid] = v
        return v

    def poly(self, p, scale=False):
        tot = np.zeros(self.n)
        sc = np.zeros(self.n)
        with np.errstate(all="ignore"):
            for m, c in p.t.items():
                v = np.full(self.n, float(c))
                for a, e in m:
                    v = v * self.atom(a) ** float(e) if e != 1 else v * self.atom(a)
                tot += v
                if scale:
                    sc += np.abs(v)
        return (tot, sc) if scale else tot

    def sym(self, x, scale=False):
        x = S.lift(x)
        tot = np.zeros(self.n)
        sc = np.zeros(self.n)
        with np.errstate(all="ignore"):
            for d, p in x.g.items():
                v, w = self.poly(p, True)
                for f, e in d:
                    k = self.poly(S._FACTORS[f]) ** e
                    v, w = v / k, w / np.abs(k)
                tot += v
                sc += w
        return (tot, sc) if scale else tot

    def bool(self, b):
        """(true, false) masks; neither where undefined or too close to call"""
        if b.kind == "const":
            t = np.full(self.n, bool(b.op))
            return t, ~t
        if b.kind == "bvar":
            k = ("bvar", b.name)
            if k not in self.cmp:
                t = np.array([self.rng.random() < 0.5 for _ in range(self.n)])
                self.cmp[k] = t
            return self.cmp[k], ~self.cmp[k]
        if b.kind == "cmp":
            k = b.p.key()
            r = self.cmp.get(k)
            if r is None:
                v, sc = self.poly(b.p, True)
                ok = np.isfinite(v) & np.isfinite(sc)
                with np.errstate(all="ignore"):
                    zero = ok & (np.abs(v) <= 1e-12 * sc)
                    ok &= zero | (np.abs(v) > 1e-9 * sc)
                s = np.where(zero, 0.0, np.sign(np.where(ok, v, 0.0)))
                r = self.cmp[k] = (s, ok)
            s, ok = r
            t = {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[b.op]
            return t & ok, ~t & ok
        vs = [self.bool(a) for a in b.args]
        if b.kind == "not":
            return vs[0][1], vs[0][0]
        t, f = vs[0]
        for t2, f2 in vs[1:]:
            if b.kind == "and":
                t, f = t & t2, f | f2
            else:
                t, f = t | t2, f & f2
        return t, f

    def env(self, i):
        return {k: Fraction(float(v[i])) for k, v in self.vars.items()}


def _try(f, t):
    try:
        return float(f(*t))
    except Exception:  # noqa: BLE001
        return float("nan")


def _gap(pool, b, want=True):
    """how far a condition is from being `want` at each point (0: it is)"""
    if b.kind == "const":
        return np.zeros(pool.n) if bool(b.op) == want else np.full(pool.n, 1e3)
    if b.kind == "bvar":
        t = pool.bool(b)[0]
        return np.where(t == want, 0.0, 1.0)
    if b.kind == "not":
        return _gap(pool, b.args[0], not want)
    if b.kind in ("and", "or"):
        gs = [_gap(pool, a, want) for a in b.args]
        return np.sum(gs, axis=0) if (b.kind == "and") == want else np.min(gs, axis=0)
    op = b.op if want else S._NEG[b.op]
    v, sc = pool.poly(b.p, True)
    with np.errstate(all="ignore"):
        r = v / sc
    r = np.where(np.isfinite(r), r, np.nan)
    m = 1e-8
    if op in ("<", "<="):
        out = np.where(r < -m, 0.0, r + 2 * m)
    elif op in (">", ">="):
        out = np.where(r > m, 0.0, 2 * m - r)
    elif op == "!=":
        out = np.where(np.abs(r) > m, 0.0, 1e-6)
    else:
        out = np.where(np.abs(r) <= 1e-12, 0.0, np.abs(r))
    return np.where(np.isnan(out), 1e3, out)


def search(path, seed=1, deadline=None, n=256, gens=40):
    """evolutionary search for points that satisfy a path condition; returns a pool and the
    indices of the points found (numerically; the caller replays them)"""
    import time

    rng = np.random.default_rng(seed)
    base = path.pool
    if base is None or not base.vars:
        return None, []
    names = list(base.vars)
    cond = path.cond()
    cur = {k: np.resize(v, n).copy() for k, v in base.vars.items()}
    pos = {k for k in names if k in S._BYVAR and S._BYVAR[k].positive}
    best = None
    for gen in range(gens):
        if deadline and time.time() > deadline:
            break
        p = Pool(seed, n, base.ranges)
        p.vars = dict(cur)
        p.bools = base
        for k, v in base.cmp.items():
            if isinstance(k, tuple) and k and k[0] == "bvar":
                p.cmp[k] = np.resize(v, n)
        for k in names:
            p.val[S._BYVAR[k].id] = cur[k]
        gap = np.sum([_gap(p, b) for b in cond], axis=0) if cond else np.zeros(n)
        hit = np.flatnonzero(gap == 0)
        if len(hit):
            return p, list(hit)
        order = np.argsort(gap, kind="stable")[: max(8, n // 8)]
        elite = {k: cur[k][order] for k in names}
        par = rng.integers(0, len(order), n)
        scale = 2.0 ** rng.uniform(-14, 2, n)
        new = {}
        which = rng.random((len(names), n)) < max(2.0 / len(names), 0.3)
        for i, k in enumerate(names):
            step = np.round(rng.normal(size=n) * scale * 65536) / 65536
            v = elite[k][par] + np.where(which[i], step, 0.0)
            # crossover
            o = rng.integers(0, len(order), n)
            v = np.where(rng.random(n) < 0.1, elite[k][o], v)
            if k in pos:
                v = np.abs(v)
                v[v == 0] = 1 / 65536
            v[: len(order)] = elite[k]
            new[k] = v
        cur = new
    return None, []

"""Path exploration: the real function is re-executed once per feasible decision prefix."""
from __future__ import annotations

import sys
import time
import os
import traceback

import numpy as np

from . import solve, sym as S


class Infeasible(BaseException):
    pass


class BoundExceeded(Exception):
    pass


class Ctx:
    def __init__(self, prefix, timeouts, pool=None):
        self.pool = pool
        self.mask = np.ones(pool.n, dtype=bool) if pool is not None else None
        self.prefix = prefix
        self.decisions = []
        self.pc = []  # SymBool, branch decisions
        self.assumed = []  # SymBool, harness assumptions
        self.nonzero = []  # SymBool, divisors taken as non-zero
        self.known = {}
        self.alts = []
        self.timeouts = timeouts
        self.jit = 0
        self.spec = 0
        self.events = []
        self.posatoms = set()

    def all(self):
        return self.assumed + self.nonzero + self.pc

    def narrow(self, b, v=True):
        if self.pool is not None and self.mask.any():
            self.mask = self.mask & self.pool.bool(b)[0 if v else 1]


CTX: Ctx | None = None


def _remember(ctx, b, v):
    if b.kind == "cmp" and len(b.p.t) == 1:
        ((m, c),) = b.p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c > 0:
            op = b.op if v else S._NEG[b.op]
            a = S.ATOMS[m[0][0]]
            if op == ">" or (op == "!=" and a.kind == "sqrt"):
                ctx.posatoms.add(a.id)
    ctx.known[b.key()] = v
    ctx.known[S.s_not(b).key()] = not v
    if b.kind == "cmp":
        # an ordering decision settles the weaker comparisons as well
        op = b.op if v else S._NEG[b.op]
        p = b.p
        imp = {
            "<": {"<=": True, "!=": True, "==": False, ">": False, ">=": False},
            ">": {">=": True, "!=": True, "==": False, "<": False, "<=": False},
            "==": {"<=": True, ">=": True, "<": False, ">": False, "!=": False},
            "<=": {">": False},
            ">=": {"<": False},
            "!=": {"==": False},
        }[op]
        for o, t in imp.items():
            ctx.known[S.SymBool("cmp", p=p, op=o).key()] = t
    if v and b.kind == "and":
        for a in b.args:
            _remember(ctx, a, True)
    if not v and b.kind == "or":
        for a in b.args:
            _remember(ctx, a, False)


def _lookup(ctx, b):
    k = ctx.known.get(b.key())
    if k is not None:
        return k
    if b.kind == "and":
        vs = [_lookup(ctx, a) for a in b.args]
        if False in vs:
            return False
        if all(v is True for v in vs):
            return True
    elif b.kind == "or":
        vs = [_lookup(ctx, a) for a in b.args]
        if True in vs:
            return True
        if all(v is False for v in vs):
            return False
    elif b.kind == "not":
        v = _lookup(ctx, b.args[0])
        return None if v is None else not v
    return None


def on_bool(b):
    ctx = CTX
    if ctx is None:
        raise S.Unsupported("branch on a symbolic condition outside exploration")
    k = _lookup(ctx, b)
    if k is not None:
        return k
    i = len(ctx.decisions)
    if i < len(ctx.prefix):
        v = ctx.prefix[i]
        ctx.decisions.append(v)
        ctx.pc.append(b if v else S.s_not(b))
        ctx.narrow(b, v)
        _remember(ctx, b, v)
        return v
    base = ctx.all()
    wt = wf = False
    if ctx.pool is not None and ctx.mask.any():
        t, f = ctx.pool.bool(b)
        wt, wf = bool((t & ctx.mask).any()), bool((f & ctx.mask).any())
    if not (wt and wf):
        base = solve.connected(base, b)
    # a side without a witness in the pool is dropped only on the solver's `unsat`
    if not wt and solve.decide(base + [b], ctx.timeouts)[0] == "unsat":
        v = False
    elif not wf and solve.decide(base + [S.s_not(b)], ctx.timeouts)[0] == "unsat":
        v = True
    else:
        # go first where there are witnesses
        v = wt or not wf
        ctx.alts.append(ctx.decisions[:] + [not v])
    ctx.narrow(b, v)
    ctx.decisions.append(v)
    ctx.pc.append(b if v else S.s_not(b))
    _remember(ctx, b, v)
    return v


def assume(b):
    b = S.to_bool(b)
    if b.kind == "const":
        if not b.op:
            raise Infeasible()
        return
    CTX.assumed.append(b)
    CTX.narrow(b)
    _remember(CTX, b, True)


def on_nonzero(x):
    if CTX is None:
        return
    b = S.mk_cmp(x, "!=")
    if b.kind == "const":
        return
    if _lookup(CTX, b) is None:
        CTX.nonzero.append(b)
        CTX.narrow(b)
        _remember(CTX, b, True)


def on_zerodiv(num):
    if CTX is not None and CTX.jit == 0:
        # numpy scalar / array division: nan or inf with a warning
        return float("nan")
    raise ZeroDivisionError("division by zero")


def is_positive(aid):
    at = S.ATOMS[aid]
    if at.kind == "var":
        return at.positive
    if at.kind == "sqrt" and at.data.is_const():
        return True
    return CTX is not None and aid in CTX.posatoms


S.HOOK_POSITIVE = is_positive
S.HOOK_BOOL = on_bool
S.HOOK_NONZERO = on_nonzero
S.HOOK_ZERODIV = on_zerodiv


class Path:
    def __init__(self, ctx, result, exc):
        self.pc = ctx.pc
        self.assumed = ctx.assumed
        self.nonzero = ctx.nonzero
        self.result = result
        self.exc = exc
        self.events = ctx.events
        self.pool = ctx.pool
        self.mask = ctx.mask
        self.witness = None
        if ctx.mask is not None and ctx.mask.any():
            self.witness = ctx.pool.env(int(np.argmax(ctx.mask)))
        self.decisions = ctx.decisions

    def cond(self):
        return self.assumed + self.nonzero + self.pc

    def numeric_ok(self, env, tol=1e-9, bools=None):
        cache = {}
        try:
            for b in self.cond():
                if S.eval_bool(b, env, cache, tol, bools) is not True:
                    return False
        except S.EvalError:
            return False
        return True


FUNCTIONS: set = set()
TRACE = {"on": True, "root": "/repo/"}


def _prof(frame, event, arg):
    if event == "call":
        c = frame.f_code
        if c.co_filename.startswith(TRACE["root"]):
            n = getattr(c, "co_qualname", c.co_name)
            if "<" not in n.replace("<locals>", ""):
                FUNCTIONS.add(f"{c.co_filename[len(TRACE['root']):]}:{n}")


def explore(fn, max_paths=2000, timeouts=(300, 1000), deadline=None, pool=None):
    """run fn() once per feasible path; yields Path objects.  fn builds its own inputs
    and calls assume()."""
    global CTX
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        if n >= max_paths:
            raise BoundExceeded(f"more than {max_paths} paths")
        if deadline and time.time() > deadline:
            raise BoundExceeded("time limit of the exploration")
        ctx = Ctx(prefix, timeouts, pool)
        CTX = ctx
        try:
            try:
                if n < 2:
                    sys.setprofile(_prof)
                try:
                    res = fn()
                finally:
                    sys.setprofile(None)
                exc = None
            except Infeasible:
                work.extend(ctx.alts)
                continue
            except (S.Unsupported, BoundExceeded, MemoryError):
                raise
            except RecursionError:
                raise
            except Exception as e:  # an exception of the code under test is a result
                res = None
                exc = e
                e._tb = traceback.format_exc()
                if os.environ.get("VERIF_DEBUG"):
                    print(e._tb, flush=True)
        finally:
            CTX = None
        work.extend(ctx.alts)
        n += 1
        yield Path(ctx, res, exc)

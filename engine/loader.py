"""Loads geec modules from /repo's current source for symbolic execution.

The source is parsed, `and`/`or` and a few builtin calls are routed through helpers that
understand symbolic values, and the result is executed as is: the functions that run are
the repository's.  Imports of numpy, math, numba, scipy.*, loguru (and, for the
coordinate modules, pymap3d and pygeodesy) inside geec resolve to engine/shims.py.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import weakref

from . import explore, shims, sym as S

REPO = os.environ.get("GEEC_REPO", "/repo")
EXTRA: dict = {}  # module name -> replacement (pymap3d, pygeodesy)
LOADED: dict = {}  # module -> source path
EXECUTED: set = set()


def _vf_and(*fs):
    last = True
    for i, f in enumerate(fs):
        last = f()
        if isinstance(last, S.SymBool) and last.kind != "const" and i + 1 < len(fs):
            return _spec(last, fs[i + 1 :], S.s_and, False)
        if not last:
            return last
    return last


def _vf_or(*fs):
    last = False
    for i, f in enumerate(fs):
        last = f()
        if isinstance(last, S.SymBool) and last.kind != "const" and i + 1 < len(fs):
            return _spec(last, fs[i + 1 :], S.s_or, True)
        if last:
            return last
    return last


def _spec(first, rest, comb, stop):
    """evaluate the remaining operands without deciding the first one, when they are
    plain conditions; otherwise decide in order"""
    ctx = explore.CTX
    k = explore._lookup(ctx, first) if ctx is not None else None
    if k is None and ctx is not None:
        mark = (len(ctx.decisions), len(ctx.pc), len(ctx.nonzero), dict(ctx.known), list(ctx.alts), ctx.mask)
        vals = [first]
        ok = True
        saved = S.HOOK_BOOL
        S.HOOK_BOOL = _nofork
        try:
            for f in rest:
                v = f()
                if not isinstance(v, (S.SymBool, bool, shims._np.bool_)):
                    ok = False
                    break
                vals.append(v)
        except Exception:
            ok = False
        finally:
            S.HOOK_BOOL = saved
        # divisors met while evaluating ahead are not path facts
        del ctx.nonzero[mark[2] :]
        ctx.known = mark[3]
        ctx.mask = mark[5]
        if ok:
            return comb(*vals)
    if bool(first) == stop:
        return stop
    return (_vf_or if stop else _vf_and)(*rest)


class _Fork(Exception):
    pass


def _nofork(b):
    k = explore._lookup(explore.CTX, b)
    if k is None:
        raise _Fork()
    return k


def _vf_not(x):
    if isinstance(x, S.SymBool):
        return S.s_not(x)
    return not x


def _vf_float(*a):
    if a and (shims.is_sym(a[0]) or isinstance(a[0], shims._np.ndarray) and a[0].dtype == object):
        x = a[0]
        if isinstance(x, shims._np.ndarray):
            x = x.item()
        return x if isinstance(x, S.Sym) else float(x)
    return builtins.float(*a)


def _vf_int(*a):
    if a and isinstance(a[0], S.Sym):
        return a[0].__trunc__() if not a[0].is_const() else int(a[0].const())
    return builtins.int(*a)


_ADDR: dict = {}  # real id -> (weak reference, address given)
_FREE: list = []
_NEXT = [1 << 40]


def _vf_id(x):
    """identities as an allocator may hand them out: the one of an object that is gone
    belongs to the next object asked about"""
    k = builtins.id(x)
    e = _ADDR.get(k)
    if e is not None and e[0]() is x:
        return e[1]
    try:
        r = weakref.ref(x, lambda _, k=k: _gone(k))
    except TypeError:
        return k
    a = _FREE.pop() if _FREE else _NEXT.__setitem__(0, _NEXT[0] + 64) or _NEXT[0]
    _ADDR[k] = (r, a)
    return a


def _gone(k):
    e = _ADDR.pop(k, None)
    if e is not None:
        _FREE.append(e[1])


def _vf_isinstance(x, t):
    if isinstance(x, S.Sym):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers

        for u in ts:
            if u in (float, shims._np.float64, shims._np.floating, numbers.Real, numbers.Number, shims._float64, object):
                return True
        try:
            return builtins.isinstance(x, t)
        except TypeError:
            return False
    if isinstance(x, S.SymBool):
        ts = t if isinstance(t, tuple) else (t,)
        return bool in ts or builtins.isinstance(x, t)
    return builtins.isinstance(x, t)


HELPERS = {
    "_vf_and_": _vf_and,
    "_vf_or_": _vf_or,
    "_vf_not_": _vf_not,
    "_vf_float_": _vf_float,
    "_vf_int_": _vf_int,
    "_vf_isinstance_": _vf_isinstance,
}


class Rewrite(ast.NodeTransformer):
    def _lam(self, e):
        return ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e
        )

    def visit_BoolOp(self, n):
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return self.generic_visit(n)
        self.generic_visit(n)
        name = "_vf_and_" if isinstance(n.op, ast.And) else "_vf_or_"
        return ast.copy_location(
            ast.Call(func=ast.Name(name, ast.Load()), args=[self._lam(v) for v in n.values], keywords=[]), n
        )

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(
                ast.Call(func=ast.Name("_vf_not_", ast.Load()), args=[n.operand], keywords=[]), n
            )
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        simple = all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp)) for c in n.comparators[:-1])
        if len(n.ops) > 1 and simple:
            parts = []
            left = n.left
            for op, c in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[c]))
                left = c
            return ast.copy_location(
                ast.Call(func=ast.Name("_vf_and_", ast.Load()), args=[self._lam(p) for p in parts], keywords=[]), n
            )
        return n

    def visit_ClassDef(self, n):
        # names inside a class body are not visible from lambdas: rewrite methods only
        n.body = [
            self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else b for b in n.body
        ]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("float", "int", "isinstance") and not n.keywords:
            n.func = ast.copy_location(ast.Name("_vf_" + n.func.id + "_", ast.Load()), n.func)
        return n


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in EXTRA:
            return EXTRA[name]
        top = name.split(".")[0]
        if top in EXTRA:
            if fromlist:
                m = EXTRA[top]
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return EXTRA[top]
        if name == "numpy" or (top == "numpy" and not fromlist):
            if name != "numpy":
                builtins.__import__(name)
            return shims.NP
        if name == "numpy.linalg":
            return shims.LINALG
        if name == "math":
            return shims.MATH
        if top == "numba":
            return shims.NUMBA
        if name == "scipy.optimize" and fromlist:
            return shims.SOPT
        if name == "scipy.spatial" and fromlist:
            return shims.SSPA
        if top == "scipy" and not fromlist:
            return _SCIPY
        if name == "scipy" and fromlist:
            return _SCIPY
        if name == "loguru":
            return shims.LOGURU
    return builtins.__import__(name, globals, locals, fromlist, level)


class _Sc:
    optimize = shims.SOPT
    spatial = shims.SSPA

    def __getattr__(self, k):
        import scipy

        return getattr(scipy, k)


_SCIPY = _Sc()


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "geec" and not fullname.startswith("geec."):
            return None
        rel = fullname.replace(".", "/")
        for cand, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
            if os.path.isfile(cand):
                spec = importlib.util.spec_from_loader(fullname, self, origin=cand, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [os.path.dirname(cand)]
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, path, "exec", dont_inherit=True)
        b = dict(vars(builtins))
        b["__import__"] = _import
        b.update(HELPERS)
        b["id"] = _vf_id
        module.__dict__["__builtins__"] = b
        module.__file__ = path
        LOADED[module.__name__] = path
        exec(code, module.__dict__)


_finder = Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def unload():
    for k in [k for k in sys.modules if k == "geec" or k.startswith("geec.")]:
        del sys.modules[k]


def load(name):
    install()
    import importlib

    return importlib.import_module(name)

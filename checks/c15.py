"""C15: cross products of vectors and batches of vectors."""
import numpy as np

from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import grav as g
from . import rel

META = {
    "explanation": "cross_product is executed on vectors and batches of vectors with symbolic components; every component of the result is compared with the determinant formula, the arguments with copies taken before, and wrong lengths must be refused.",
    "level": "other",
    "assumptions": ["real arithmetic", "batches of at most 4 vectors"],
}


def sym(tag, shape):
    a = np.empty(shape, dtype=object)
    for k, ix in enumerate(np.ndindex(*shape)):
        a[ix] = S.var(f"{tag}{k}")
    return a.view(shims.SymArray)


def size(shape):
    return int(np.prod(shape))


def ref(A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    if A.ndim == 2:
        return np.array([ref(a, B) for a in A], dtype=object)
    if B.ndim == 2:
        return np.array([ref(A, b) for b in B], dtype=object)
    return np.asarray(g.cross(A, B), dtype=object)


def layout(a, how):
    """the same numbers in another memory layout"""
    if how == "c":
        return a
    if how == "f":
        return np.asfortranarray(a).view(shims.SymArray)
    big = np.empty(tuple(2 * s for s in a.shape), dtype=object)
    big[...] = S.lift(99)
    big = big.view(shims.SymArray)
    sl = tuple(slice(None, None, 2) for _ in a.shape)
    big[sl] = a
    return big[sl]


def product(rep, shapes=()):
    U = loader.load("geec.utils")
    for sa, sb, how in shapes:
        names = [f"a{k}" for k in range(size(sa))] + [f"b{k}" for k in range(size(sb))]

        def run(sa=sa, sb=sb, how=how):
            A, B = layout(sym("a", sa), how), layout(sym("b", sb), how)
            A0, B0 = A.copy(), B.copy()
            R = U.cross_product(A, B)
            W = ref(A0, B0)
            return rel.pairs("product", R, W) + rel.pairs("first argument", A, A0) + rel.pairs("second argument", B, B0)

        def build(env, sa=sa, sb=sb, how=how):
            return {"scenario": "cross", "a": [env[f"a{k}"] for k in range(size(sa))], "b": [env[f"b{k}"] for k in range(size(sb))], "sa": list(sa), "sb": list(sb), "layout": how, "refuse": False}

        rel.drive(rep, run, names, build, f"cross product of {sa} and {sb}")


def same(rep):
    """both arguments are one array"""
    U = loader.load("geec.utils")
    for sa in ((3,), (2, 3)):
        names = [f"a{k}" for k in range(size(sa))]

        def run(sa=sa):
            A = sym("a", sa)
            A0 = A.copy()
            return rel.pairs("product", U.cross_product(A, A), ref(A0, A0)) + rel.pairs("argument", A, A0)

        def build(env, sa=sa):
            return {"scenario": "cross", "a": [env[f"a{k}"] for k in range(size(sa))], "b": None, "sa": list(sa), "sb": list(sa), "layout": "c", "refuse": False}

        rel.drive(rep, run, names, build, f"cross product of {sa} with itself")


INTS = {(3,): [2, -3, 5], (2, 3): [[2, -3, 5], [1, 0, -7]]}


def mixed(rep, shapes=()):
    """whole numbers in an integer array on one side, reals on the other"""
    U = loader.load("geec.utils")
    for sa, sb, which in shapes:
        names = [f"b{k}" for k in range(size(sb))]

        def run(sa=sa, sb=sb, which=which):
            A, B = np.array(INTS[sa]), sym("b", sb)
            A0, B0 = A.copy(), B.copy()
            L = np.array([[S.lift(int(x)) for x in r] for r in A0.reshape(-1, 3)], dtype=object).reshape(sa)
            R = U.cross_product(A, B) if which == "a" else U.cross_product(B, A)
            W = ref(L, B0) if which == "a" else ref(B0, L)
            return rel.pairs("product", R, W) + [(bool(np.array_equal(A, A0)) and A.dtype == A0.dtype, "integer argument")] + rel.pairs("other argument", B, B0)

        def build(env, sa=sa, sb=sb, which=which):
            b = [env[f"b{k}"] for k in range(size(sb))]
            a = [int(x) for x in np.ravel(INTS[sa])]
            if which == "a":
                return {"scenario": "cross", "a": a, "b": b, "sa": list(sa), "sb": list(sb), "layout": "c", "ints": "a", "refuse": False}
            return {"scenario": "cross", "a": b, "b": a, "sa": list(sb), "sb": list(sa), "layout": "c", "ints": "b", "refuse": False}

        rel.drive(rep, run, names, build, f"cross product of integers {sa} with {sb}")


def refuse(rep, shapes=()):
    U = loader.load("geec.utils")
    for sa, sb in shapes:
        names = [f"a{k}" for k in range(size(sa))] + [f"b{k}" for k in range(size(sb))]

        def run(sa=sa, sb=sb):
            A, B = sym("a", sa), sym("b", sb)
            A0, B0 = A.copy(), B.copy()
            try:
                U.cross_product(A, B)
                ok = False
            except TypeError:
                ok = True
            return [(ok, "refused with TypeError")] + rel.pairs("first argument", A, A0) + rel.pairs("second argument", B, B0)

        def build(env, sa=sa, sb=sb):
            return {"scenario": "cross", "a": [env[f"a{k}"] for k in range(size(sa))], "b": [env[f"b{k}"] for k in range(size(sb))], "sa": list(sa), "sb": list(sb), "layout": "c", "refuse": True}

        rel.drive(rep, run, names, build, f"{sa} with {sb} is refused")


LAY = ("c", "f", "strided")
V = (3,)
CASES = [
    Case("vectors", product, "two 3-vectors", budget=60, shapes=[(V, V, h) for h in LAY]),
    Case("first", product, "1 to 4 vectors with a vector", budget=60, shapes=[((n, 3), V, h) for n in (1, 2, 3, 4) for h in LAY]),
    Case("second", product, "a vector with 1 to 4 vectors", budget=60, shapes=[(V, (n, 3), h) for n in (1, 2, 3, 4) for h in LAY]),
    Case("both", product, "1 to 4 vectors with 1 to 4 vectors", budget=100, shapes=[((n, 3), (m, 3), h) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4) for h in ("c", "strided")]),
    Case("itself", same, "an array with itself", budget=60),
    Case("integers", mixed, "1 or 2 given vectors of whole numbers (integer array) with 1 or 2 vectors of reals, either side", budget=60, shapes=[(sa, sb, w) for sa in INTS for sb in (V, (2, 3)) for w in "ab"]),
    Case("refused", refuse, "lengths 0, 1, 2, 4 and 6 on either side, also in batches", budget=100, shapes=[(s, V) for s in ((1,), (2,), (4,), (6,))] + [(V, s) for s in ((1,), (2,), (4,), (6,))] + [((2,), (2,)), ((4,), (4,)), ((2, 2), V), ((3, 2), V), (V, (2, 2)), (V, (3, 4)), ((2, 3), (2,)), ((2, 3), (2, 4)), ((2, 2), (2, 2)), ((3, 4), (2, 3))]),
    Case("many", product, "up to 8 by 8 vectors", budget=900, shapes=[((n, 3), (m, 3), h) for n in (5, 8) for m in (5, 8) for h in LAY], tiers=("thorough",)),
]

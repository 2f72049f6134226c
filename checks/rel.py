"""Helpers for the relational harnesses: pairs of code values that must agree."""
from fractions import Fraction

import numpy as np

from engine import explore, harness, loader, shims, sym as S
from . import grav as g
from . import newton as n

CS = "xyz"
far = {"ox": (5, 9), "oy": (6, 11), "oz": (3, 8)}


def labels(prefix, shape):
    if shape == (3,):
        return [prefix + c for c in CS]
    return [prefix + a + b for a in CS for b in CS]


def pairs(prefix, A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    if A.shape != B.shape:
        return [(None, None, f"{prefix} shape {A.shape} / {B.shape}")]
    return list(zip(A.ravel(), B.ravel(), labels(prefix, A.shape) if A.shape in ((3,), (3, 3)) else [f"{prefix}[{i}]" for i in range(A.size)]))


def drive(rep, run, names, build, desc, ranges=None, max_paths=600, timeouts=(300, 700), want=None, n_pool=1024):
    """run() -> list of (code value, required value, label) or SymBool/bool facts
    (fact, label); every path must satisfy all of them"""
    for path in explore.explore(run, max_paths=max_paths, timeouts=timeouts, deadline=rep.deadline, pool=rep.pool(ranges, n=n_pool)):
        rep.paths += 1
        if path.exc is not None:
            rep.exc_paths += 1
            rep.obligations += 1
            rep.notes.append(repr(path.exc)[:200])
            if want is not None and want(path.exc):
                rep.proved += 1
                rep.reach(path)
                continue
            left = [("no exception: " + repr(path.exc)[:120], None)]
        else:
            eq = [r for r in path.result if len(r) == 3]
            facts = [r for r in path.result if len(r) == 2]
            left = rep.prove_equal(path, eq, desc)
            for b, lab in facts:
                if isinstance(b, (bool, np.bool_)):
                    rep.obligations += 1
                    if b:
                        rep.proved += 1
                    else:
                        left.append((lab, None))
                elif not rep.prove(path, b):
                    left.append((lab, fact_gap(b)))
        if left:
            rep.refute(path, left, names, None, build, desc)
            if len(rep.candidates) >= 12:
                rep.notes.append("stopped after 12 candidates")
                return
        else:
            rep.reach(path)


def fact_gap(b):
    """0 where the fact holds, 1 where it does not (only for numerical search)"""
    return Gap(b)


class Gap:
    def __init__(self, b):
        self.b = b


def const_pts(pts):
    return shims.array([[float(x) for x in p] for p in pts])


def region(o, lo=True):
    """an octant far from the small bodies: few sign patterns"""
    explore.assume(o[0] > 4)
    explore.assume(o[1] > 5)
    explore.assume(o[2] > 2)


BOXES = [(9, 6, 6), (-6, 9, 3), (6, -6, 9), (-9, -6, -6)]


def box(o, k, half=1, scale=1):
    """a cube of side 2 around BOXES[k]: the planes of the small bodies do not cross it"""
    for i, c in enumerate(BOXES[k % len(BOXES)]):
        explore.assume(o[i] > (c - half) * scale)
        explore.assume(o[i] < (c + half) * scale)


def box_ranges(names, k, half=1, scale=1):
    return {nm: ((c - half) * scale, (c + half) * scale) for nm, c in zip(names, BOXES[k % len(BOXES)])}


def q_of(pts0, o):
    return [g.arr([S.lift(x) for x in p]) - o for p in pts0]


def general(pts0, o):
    faces = g.faces_of(pts0)
    edges = sorted({tuple(sorted((f[i], f[(i + 1) % 3]))) for f in faces for i in range(3)})
    q = q_of(pts0, o)
    if not S.HINTS:
        for f in faces:
            d = g.det3(*[q[i] for i in f])
            if d.g:
                h = S.split_content(d.g[()])[2]
                if not h.is_const():
                    S.HINTS.append(h)
    g.assume_general(q, faces, edges)
    return q, faces


def vals(env, names, default=Fraction(1, 2)):
    return [env.get(k, default) for k in names]

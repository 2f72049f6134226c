"""Symbolic reference for the attraction of a polyhedron and inputs for the harnesses."""
import itertools
from fractions import Fraction

import numpy as np

from engine import explore, loader, shims, sym as S

EPS = Fraction(2) ** -52
LINE = Fraction(1e-8)  # 1 - cos of the angle under which an edge is seen
GC = Fraction(667408, 10**16)


def arr(x):
    return np.array(x, dtype=object).view(shims.SymArray)


def vec(name, cs="xyz"):
    return arr([S.var(name + c) for c in cs])


def cross(a, b):
    return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def dot(a, b):
    return S.lift(a[0]) * b[0] + S.lift(a[1]) * b[1] + S.lift(a[2]) * b[2]


def norm(a):
    return S.mk_sqrt(dot(a, a))


def det3(a, b, c):
    return dot(a, cross(b, c))


def sgn(x):
    return 1 if bool(S.lift(x) > 0) else -1


TET_FACES = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]


class Hull:
    pass


def tetra_hull(order=((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2))):
    """contract of scipy.spatial.ConvexHull on four points in general position: four
    triangles, neighbors[i][k] opposite to vertex k; vertex order inside a facet is
    arbitrary"""

    def stub(points):
        h = Hull()
        h.points = points
        h.simplices = np.array(order, dtype=np.int32)
        opp = {frozenset(f): i for i, f in enumerate(order)}
        nb = []
        for f in order:
            row = []
            (other,) = set(range(4)) - set(f)
            for k in range(3):
                g = frozenset(set(f) - {f[k]} | {other})
                row.append(opp[g])
            nb.append(row)
        h.neighbors = np.array(nb, dtype=np.int32)
        h.vertices = np.arange(4, dtype=np.int32)
        h.nsimplex, h.npoints, h.ndim = 4, 4, 3
        eq = []
        cen = (points[0] + points[1] + points[2] + points[3]) / 4
        for f in order:
            a, b, c = (points[i] for i in f)
            n = cross(b - a, c - a)
            n = n / norm(n)
            if bool(dot(n, cen - a) > 0):
                n = -n
            eq.append(list(n) + [-dot(n, a)])
        h.equations = arr(eq)
        return h

    return stub


class ConstHull:
    """real hull of a concrete body, translated: used when the points carry a symbolic
    translation"""

    def __init__(self, pts):
        from scipy.spatial import ConvexHull

        self.h = ConvexHull(np.array([[float(x) for x in p] for p in pts]))

    def __call__(self, points):
        r = Hull()
        r.points = points
        r.simplices = self.h.simplices.copy()
        r.neighbors = self.h.neighbors.copy()
        r.vertices = self.h.vertices.copy()
        r.nsimplex, r.npoints, r.ndim = self.h.nsimplex, self.h.npoints, 3
        r.equations = None
        return r


def faces_of(pts):
    """outward (ccw) triangles of a concrete body"""
    from engine import oracle

    _, fs = oracle.faces_of([[float(x) for x in p] for p in pts])
    return [tuple(int(i) for i in f) for f in fs]


def tetra_faces(q):
    """outward triangles of the tetrahedron, orientation decided by the solver"""
    d = det3(q[1] - q[0], q[2] - q[0], q[3] - q[0])
    pos = bool(d > 0)
    out = []
    for f in TET_FACES:
        (o,) = set(range(4)) - set(f)
        # parity of (o, f) as a permutation of 0..3
        perm = [o] + list(f)
        inv = sum(1 for i, j in itertools.combinations(range(4), 2) if perm[i] > perm[j])
        # det(f1-f0, f2-f0, o-f0) has sign  -(-1)^inv * sign(d)
        neg = (inv % 2 == 0) == pos  # o is on the negative side: (f0,f1,f2) is ccw from outside
        out.append(f if neg else (f[0], f[2], f[1]))
    return out


def face_ref(R, coplanar=False):
    """attraction terms of a triangle with vertices R (relative to the observer), ccw
    from outside: returns (n, h, omega, edge vector)   attraction = -k h (n w + E x n)"""
    n = cross(R[1] - R[0], R[2] - R[0])
    m = norm(n)
    n = n / m
    h = dot(n, R[0])
    if coplanar or S.is_zero(h):
        w = S.lift(0)
        h = S.lift(0)
    else:
        tot = S.lift(0)
        for i in range(3):
            a, b, c = R[i], R[(i + 1) % 3], R[(i + 2) % 3]
            u, v = cross(a, b), cross(a, c)
            tot = tot + S.mk_fn("acos", dot(u, v) / (norm(u) * norm(v)))
        w = -sgn(h) * (tot - S.PI_F)
    E = arr([S.lift(0)] * 3)
    for i in range(3):
        a, b = R[i], R[(i + 1) % 3]
        e = b - a
        ln, ra, rb = norm(e), norm(a), norm(b)
        L = S.mk_fn("log", (ra + rb + ln) / (ra + rb - ln))
        E = E + e * (L / ln)
    return n, h, w, E


def attraction_ref(q, faces, rho, Gc, coplanar=()):
    """per-face list of attraction vectors (mGal)"""
    k = -S.lift(rho) * S.lift(Gc) * 100000
    out = []
    for i, f in enumerate(faces):
        R = [q[j] for j in f]
        n, h, w, E = face_ref(R, frozenset(f) in coplanar)
        c = cross(E, n)
        out.append(arr([k * h * (n[j] * w + c[j]) for j in range(3)]))
    return out


def face_tensor(R, rho, Gc, inplane=False, sign=None):
    """derivative of the attraction of one triangle (ccw from outside, vertices R relative
    to the observer) with respect to the observer's position, in Eotvos.  Closed form;
    newton.lemma() shows it is the derivative of face_ref."""
    n, h, w, E = face_ref(R, inplane)
    v = [n[i] * w + x for i, x in enumerate(cross(E, n))]
    T = [[-(n[j] * v[i]) for j in range(3)] for i in range(3)]
    if not inplane:
        dw = arr([S.lift(0)] * 3)
        dL = []
        for i in range(3):
            a, b = R[i], R[(i + 1) % 3]
            e = b - a
            ln, ra, rb = norm(e), norm(a), norm(b)
            den = ra * rb + dot(a, b)
            dw = dw - cross(a, b) * ((ra + rb) / (ra * rb * den))
            dL.append((e, (a / ra + b / rb) / den))
        for j in range(3):
            dE = arr([S.lift(0)] * 3)
            for e, d in dL:
                dE = dE + e * d[j]
            c = cross(dE, n)
            for i in range(3):
                T[i][j] = T[i][j] + h * (n[i] * dw[j] + c[i])
    k = -S.lift(rho) * S.lift(Gc) * 10**9
    return [[k * T[i][j] for j in range(3)] for i in range(3)]


def tensor_ref(q, faces, rho, Gc, inplane=()):
    T = [[S.lift(0)] * 3 for _ in range(3)]
    for f in faces:
        t = face_tensor([q[i] for i in f], rho, Gc, frozenset(f) in inplane)
        for i in range(3):
            for j in range(3):
                T[i][j] = T[i][j] + t[i][j]
    return T


def vsum(vs):
    t = arr([S.lift(0)] * 3)
    for v in vs:
        t = t + v
    return t


def assume_general(q, faces_all, edges, inplane=(), online=(), nearline=()):
    """observer (origin of q) in general position with respect to the listed faces and
    edges, except those in `inplane` / `online`; the edges in `nearline` are seen almost, but
    not exactly, end on"""
    for i in range(len(q)):
        explore.assume(norm(q[i]) > 0)
    for f in faces_all:
        a, b, c = (q[i] for i in f)
        n = cross(b - a, c - a)
        explore.assume(norm(n) > 0)
        if frozenset(f) in inplane:
            continue
        d, m = dot(n, a), norm(n)
        explore.assume(d != 0)
        explore.assume(S.s_or(d > EPS * m, d < -EPS * m))
        P = norm(a) * norm(b) * norm(c)
        for i in f:
            k = 8 * EPS * (P + m * norm(q[i]))
            explore.assume(S.s_or(d > k, d < -k))
    for i, j in edges:
        e = q[j] - q[i]
        explore.assume(norm(e) > 0)
        if frozenset((i, j)) in online:
            continue
        for u, v in ((i, j), (j, i)):
            L = q[v] - q[u]
            r, ln = norm(q[u]), norm(L)
            explore.assume(r * ln + dot(q[u], L) > 0)
            explore.assume(r * ln + dot(q[u], L) > EPS * ln)
        c, m = dot(q[i], q[j]), (1 - LINE) * norm(q[i]) * norm(q[j])
        explore.assume(c > m if frozenset((i, j)) in nearline else c < m)
    for i, j in itertools.combinations(range(len(q)), 2):
        b = S.s_or(*[(S.lift(q[i][c]) - q[j][c]) != 0 for c in range(3)])
        explore.assume(b)


def dyadic(rng, lo=-4, hi=4, den=8):
    while True:
        k = rng.randint(lo * den, hi * den)
        if k:
            return Fraction(k, den)

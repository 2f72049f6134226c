"""Independent references for replays: arbitrary precision, formulas unlike the code's.

Attraction of a homogeneous convex polyhedron (Werner & Scheeres 1997), solid angles by
Van Oosterom & Strackee (1983); gradient tensor in closed form."""
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import mpmath as mp  # noqa: E402
import numpy as np  # noqa: E402

mp.mp.dps = 50


def _sub(a, b):
    return [x - y for x, y in zip(a, b)]


def _dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _norm(a):
    return mp.sqrt(_dot(a, a))


def faces_of(points):
    """triangles of the hull of `points`, counterclockwise seen from outside"""
    from scipy.spatial import ConvexHull

    pts = np.array(points, dtype=float)
    h = ConvexHull(pts)
    cen = pts[h.vertices].mean(axis=0)
    out = []
    for s in h.simplices:
        a, b, c = (pts[i] for i in s)
        n = np.cross(b - a, c - a)
        out.append(tuple(s) if np.dot(n, a - cen) > 0 else (s[0], s[2], s[1]))
    return pts, out


def omega(R, n):
    """signed solid angle of the triangle, positive when seen from inside (n . R > 0)"""
    r = [_norm(x) for x in R]
    num = _dot(R[0], _cross(R[1], R[2]))
    den = r[0] * r[1] * r[2] + r[0] * _dot(R[1], R[2]) + r[1] * _dot(R[0], R[2]) + r[2] * _dot(R[0], R[1])
    if num == 0:
        return mp.mpf(0)
    return 2 * mp.atan2(num, den)


def field(points, obs, density, Gc):
    """(G mGal, T Eotvos) as lists of mpf; obs off the edges and vertices"""
    pts, fs = faces_of(points)
    P = [[mp.mpf(float(x)) for x in p] for p in pts]
    o = [mp.mpf(float(x)) for x in obs]
    g = [mp.mpf(0)] * 3
    T = [[mp.mpf(0)] * 3 for _ in range(3)]
    k = mp.mpf(float(density)) * mp.mpf(float(Gc))
    for f in fs:
        V = [P[i] for i in f]
        R = [_sub(v, o) for v in V]
        n = _cross(_sub(V[1], V[0]), _sub(V[2], V[0]))
        m = _norm(n)
        n = [x / m for x in n]
        w = omega(R, n)
        h = _dot(n, R[0])
            # attraction = k (sum_f n h w - sum_e n h_e L), r from the observer to the element
        for i in range(3):
            g[i] += n[i] * h * w
            for j in range(3):
                T[i][j] += n[i] * n[j] * w
        for a in range(3):
            A, B = R[a], R[(a + 1) % 3]
            e = _sub(B, A)
            ln = _norm(e)
            ne = _cross(e, n)  # in-plane normal, outward of the edge
            ne = [x / ln for x in ne]
            ra, rb = _norm(A), _norm(B)
            if ra + rb - ln <= mp.mpf(10) ** -40:
                raise ValueError("observer on an edge")
            L = mp.log((ra + rb + ln) / (ra + rb - ln))
            he = _dot(ne, A)
            for i in range(3):
                g[i] -= n[i] * he * L
                for j in range(3):
                    T[i][j] -= n[i] * ne[j] * L

    G = [k * x * mp.mpf(10) ** 5 for x in g]
    TT = [[-k * x * mp.mpf(10) ** 9 for x in row] for row in T]
    return G, TT


def quadrature(points, obs, density, Gc, n=24):
    """brute-force volume integral (float), for validating `field` outside the body"""
    pts, fs = faces_of(points)
    cen = pts.mean(axis=0)
    xs, ws = np.polynomial.legendre.leggauss(n)
    xs, ws = (xs + 1) / 2, ws / 2
    u, v, w = np.meshgrid(xs, xs, xs, indexing="ij")
    W = ws[:, None, None] * ws[None, :, None] * ws[None, None, :]
    tot = np.zeros(3)
    for f in fs:
        A, B, C = (pts[i] - cen for i in f)
        J = abs(np.dot(A, np.cross(B, C)))
        # Duffy: x = u (A + v ((B-A) + w (C-B))) , jac u^2 v
        X = u[..., None] * (A + v[..., None] * ((B - A) + w[..., None] * (C - B))) + cen
        d = X - np.asarray(obs)
        r = np.linalg.norm(d, axis=-1)
        tot += (J * W * u * u * v / r**3)[..., None].__mul__(d).sum(axis=(0, 1, 2))
    return tot * density * Gc * 1e5


if __name__ == "__main__":
    cube = [(-0.5, -0.5, 0.0), (0.5, -0.5, 0.0), (0.5, 0.5, 0.0), (-0.5, 0.5, 0.0), (-0.5, -0.5, -1.0), (0.5, -0.5, -1.0), (0.5, 0.5, -1.0), (-0.5, 0.5, -1.0)]
    for o in ([1.3, 0.2, 0.4], [2, 1, 3]):
        G, T = field(cube, o, 1000, 6.67408e-11)
        print([float(x) for x in G], quadrature(cube, o, 1000, 6.67408e-11), [[float(x) for x in r] for r in T])

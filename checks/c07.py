"""C07: faces of a body: outward unit normals, counterclockwise closed loops, each edge
shared by two faces in opposite directions."""
import itertools

import numpy as np

from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import grav as g
from . import newton as n
from . import rel

META = {
    "explanation": "Polyhedron is built symbolically from a tetrahedron with 12 symbolic coordinates, or from affine images (symbolic coefficients) of concrete bodies, with the facets in every order the convex-hull contract allows in the chosen family; the facts about faces and edges are asserted on every path.",
    "level": "other",
    "assumptions": ["contract of scipy.spatial.ConvexHull (facets, neighbours; arbitrary vertex order)", "real arithmetic"],
}


def same(a, b):
    return all(S.is_zero(S.lift(x) - S.lift(y)) for x, y in zip(a, b))


def index(p, pts):
    hit = [i for i, q in enumerate(pts) if same(p, q)]
    return hit[0] if len(hit) == 1 else None


def facts(poly, pts, nf, tag=""):
    """assertions about a body with vertices pts"""
    out = []
    faces = list(poly.faces)
    out.append((len(faces) == nf, f"{nf} faces"))
    directed = []
    vol = S.lift(0)
    for k, f in enumerate(faces):
        fp = [g.arr([S.lift(x) for x in p]) for p in f.points]
        un = g.arr([S.lift(x) for x in f.un])
        ids = [index(p, pts) for p in fp]
        out.append((None not in ids and len(set(ids)) == len(ids), f"face {k}: corners are vertices of the body"))
        out.append((g.dot(un, un), S.lift(1), f"face {k}: unit normal"))
        for i in range(1, len(fp)):
            out.append((g.dot(un, fp[i] - fp[0]), S.lift(0), f"face {k}: normal perpendicular to side {i}"))
        for i, v in enumerate(pts):
            if i not in ids:
                out.append((g.dot(un, v - fp[0]) <= 0, f"face {k}: vertex {i} not outside"))
        for i in range(1, len(fp) - 1):
            c = g.cross(fp[i] - fp[0], fp[i + 1] - fp[0])
            # un.c = |c| (> 0): counterclockwise from outside
            out.append((g.dot(un, c), g.norm(c), f"face {k}: counterclockwise from outside"))
            vol = vol + g.det3(fp[0], fp[i], fp[i + 1])
        es = list(f.edges)
        out.append((len(es) == len(fp), f"face {k}: number of edges"))
        ring = []
        for j, e in enumerate(es):
            a, b = g.arr([S.lift(x) for x in e.start]), g.arr([S.lift(x) for x in e.end])
            ia, ib = index(a, pts), index(b, pts)
            ring.append((ia, ib))
            directed.append((ia, ib))
            out += rel.pairs(f"face {k} edge {j} vector", e.vector, b - a)
            out.append((S.lift(e.length) * S.lift(e.length), g.dot(b - a, b - a), f"face {k} edge {j} length squared"))
            out.append((S.lift(e.length) >= 0, f"face {k} edge {j} length"))
        loop = [(ids[i], ids[(i + 1) % len(ids)]) for i in range(len(ids))]
        out.append((sorted(ring, key=str) == sorted(loop, key=str), f"face {k}: edges run round the corners"))
    out.append((len(set(directed)) == len(directed), "no edge used twice in one direction"))
    out.append((all((b, a) in directed for a, b in directed), "every edge has its opposite in another face"))
    out.append((vol > 0, "faces enclose a positive volume"))
    return out


def orders(rng, faces, count):
    """count variations of facet order and of vertex order inside facets"""
    out = []
    for _ in range(count):
        fs = [tuple(rng.sample(f, len(f))) for f in faces]
        rng.shuffle(fs)
        out.append(tuple(fs))
    return out


def tetra(rep, count=4, which="free"):
    P = loader.load("geec.polyhedron")
    names = [f"q{i}{c}" for i in range(4) for c in "xyz"]
    ods = [tuple(g.TET_FACES)] + orders(rep.rng, g.TET_FACES, count - 1)
    for od in ods:
        def run(od=od):
            shims.HULL["stub"] = g.tetra_hull(od)
            q = [g.vec(f"q{i}") for i in range(4)]
            d = g.det3(q[1] - q[0], q[2] - q[0], q[3] - q[0])
            explore.assume(d != 0)
            for f in g.TET_FACES:
                a, b, c = (q[i] for i in f)
                explore.assume(g.norm(g.cross(b - a, c - a)) > 0)
            for i, j in itertools.combinations(range(4), 2):
                explore.assume(g.norm(q[i] - q[j]) > 0)
                explore.assume(S.s_or(*[q[i][k] - q[j][k] != 0 for k in range(3)]))
            g.tetra_faces(q)
            poly = P.Polyhedron(g.arr([list(x) for x in q]))
            return facts(poly, q, 4)

        def build(env):
            return {"scenario": "mesh", "points": [[env[f"q{i}{c}"] for c in "xyz"] for i in range(4)]}

        rel.drive(rep, run, names, build, "faces of a tetrahedron", {"*": ("q",)})


def affine(rep, name="octa", count=2, shear=False):
    """diag(a,b,c) image (a,b,c > 0) and a shear of a concrete body, translated"""
    P = loader.load("geec.polyhedron")
    pts0 = n.BODIES[name]
    names = ["sa", "sb", "sc", "tx", "ty", "tz"] + (["u", "v"] if shear else [])
    h0 = g.ConstHull(pts0)
    from scipy.spatial import ConvexHull

    nf = len(h0.h.simplices)
    for k in range(count):
        hull = reorder(h0, rep.rng) if k else h0

        def run(hull=hull):
            shims.HULL["stub"] = hull
            a, b, c = (S.var(x, positive=True) for x in names[:3])
            t = [S.var("t" + x) for x in "xyz"]
            u, v = (S.var("u"), S.var("v")) if shear else (S.lift(0), S.lift(0))
            q = [g.arr([a * x + u * z + t[0], b * y + v * z + t[1], c * z + t[2]]) for x, y, z in pts0]
            for f in g.faces_of(pts0):
                A, B, C = (q[i] for i in f)
                explore.assume(g.norm(g.cross(B - A, C - A)) > 0)
                for i in range(3):
                    explore.assume(g.norm(q[f[i]] - q[f[(i + 1) % 3]]) > 0)
            poly = P.Polyhedron(g.arr([list(x) for x in q]))
            return facts(poly, q, nf)

        def build(env):
            e = {k: env.get(k, 0) for k in ["u", "v"]} if shear else {"u": 0, "v": 0}
            return {"scenario": "mesh", "points": [[env["sa"] * x + e["u"] * z + env["tx"], env["sb"] * y + e["v"] * z + env["ty"], env["sc"] * z + env["tz"]] for x, y, z in pts0]}

        rel.drive(rep, run, names, build, f"faces of {name}", {"*": ("s", "t")})


class reorder:
    """the same hull with facets and vertices inside facets in another order"""

    def __init__(self, base, rng):
        h = base.h
        nf = len(h.simplices)
        perm = list(range(nf))
        rng.shuffle(perm)
        inv = {p: i for i, p in enumerate(perm)}
        S_, N_ = [], []
        for p in perm:
            o = list(range(3))
            rng.shuffle(o)
            S_.append([int(h.simplices[p][i]) for i in o])
            N_.append([inv[int(h.neighbors[p][i])] for i in o])
        self.S, self.N, self.base = np.array(S_, dtype=np.int32), np.array(N_, dtype=np.int32), base

    def __call__(self, points):
        r = self.base(points)
        r.simplices, r.neighbors = self.S.copy(), self.N.copy()
        return r


def flat_hull(points, **k):
    """contract of ConvexHull where the points do not span a volume: refused, unless the
    caller has them moved about (option QJ)"""
    from scipy.spatial import QhullError

    if "QJ" in str(k.get("qhull_options") or "").split():
        while len(points) < 4:
            points = np.concatenate([points, points[-1:]])
        return g.tetra_hull()(points)
    raise QhullError("QH6154 Qhull precision error: Initial simplex is flat")


flat_hull.options = True


def flat(rep, npts=4, how="plane"):
    """points in a plane, on a line, all the same, or too few"""
    P = loader.load("geec.polyhedron")
    free = min(npts, {"plane": 3, "line": 2, "point": 1, "few": npts}[how])
    names = [f"q{i}{c}" for i in range(free) for c in "xyz"]
    pars = [f"{a}{i}" for i in range(free, npts) for a in "uv"[: free - 1]]

    def points(val):
        q = [[val(f"q{i}{c}") for c in "xyz"] for i in range(free)]
        for i in range(free, npts):
            r = list(q[0])
            for a, e in zip("uv", q[1:free]):
                r = [x + val(f"{a}{i}") * (y - z) for x, y, z in zip(r, e, q[0])]
            q.append(r)
        return q

    def run():
        shims.HULL["stub"] = flat_hull
        shims.HULL["force"] = True
        try:
            poly = P.Polyhedron(g.arr(points(S.var)))
        except (S.Unsupported, S.Undefined, explore.BoundExceeded):
            raise
        except Exception as e:  # noqa: BLE001
            return [(True, f"refused ({type(e).__name__})")]
        finally:
            shims.HULL["force"] = False
        return [(False, f"accepted with {len(poly.faces)} faces")]

    def build(env):
        # whole numbers: exactly flat in floating point too
        return {"scenario": "flat", "points": points(lambda nm: round(env[nm] * 8))}

    rel.drive(rep, run, names + pars, build, f"{npts} points that span no volume ({how})")


CASES = [
    Case("flat", flat, "4 points of any plane (11 reals): refused", budget=100),
    Case("flat6", flat, "6 points of any plane (15 reals): refused", budget=100, npts=6),
    Case("line", flat, "5 points of any line (9 reals): refused", budget=100, npts=5, how="line"),
    Case("same", flat, "4 times the same point: refused", budget=100, how="point"),
] + [Case(f"few{k}", flat, f"{k} points: refused", budget=100, npts=k, how="few") for k in (1, 2, 3)] + [
    Case("tetra", tetra, "4 vertices with 12 symbolic coordinates, 6 facet orders", budget=300, count=6),
    Case("octa", affine, "octahedron with symbolic axes and position (6 reals), 2 facet orders", budget=300),
    Case("cube", affine, "box with symbolic sides and position (6 reals), 2 facet orders", budget=300, name="cube"),
    Case("prism", affine, "prism with symbolic sides and position, 2 facet orders", budget=300, name="prism"),
    Case("pyramid", affine, "sheared pyramid (8 reals), 2 facet orders", budget=300, name="pyramid", shear=True),
    Case("seven", affine, "body with 7 vertices, symbolic sides and position", budget=300, name="seven", count=1),
    Case("twelve", affine, "body with 12 vertices, symbolic sides and position", budget=300, name="twelve", count=1),
    Case("octa-in", affine, "octahedron with 4 points inside it listed too, symbolic sides and position, 2 facet orders", budget=300, name="octa-in"),
    Case("tet-in", affine, "sheared tetrahedron with 6 points inside it listed too (8 reals)", budget=300, name="tet-in", shear=True, count=1),
    Case("tetra-many", tetra, "4 vertices with 12 symbolic coordinates, 60 facet orders", budget=1500, count=60, tiers=("thorough",)),
    Case("octa-shear", affine, "sheared octahedron (8 reals), 10 facet orders", budget=1500, count=10, shear=True, tiers=("thorough",)),
    Case("cube-shear", affine, "parallelepiped (8 reals), 10 facet orders", budget=1500, name="cube", count=10, shear=True, tiers=("thorough",)),
]

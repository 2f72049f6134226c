"""C08: the field depends on the body, not on how its points are listed."""
import itertools

import numpy as np

from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import c07
from . import grav as g
from . import newton as n
from . import rel

META = {
    "explanation": "The code is executed on two descriptions of the same body (vertices in another order, facets listed differently by the hull, additional symbolic interior points, repeated points, integer or strided arrays) with a symbolic observer, density and G; the results are compared as exact expressions on every path.",
    "level": "other",
    "assumptions": ["real arithmetic", "contract of scipy.spatial.ConvexHull (facet and vertex order arbitrary, interior and repeated points are not vertices)", "bodies with triangular faces (equality across two triangulations of one face needs the addition theorem of acos)"],
}


class with_extra:
    """hull of the first points of the list; the others are inside"""

    def __init__(self, base, at):
        self.base, self.at = base, at

    def __call__(self, points):
        keep = [i for i in range(len(points)) if i not in self.at]
        m = {j: i for j, i in enumerate(keep)}
        r = self.base(points)
        r.simplices = np.array([[m[int(i)] for i in f] for f in r.simplices], dtype=np.int32)
        r.vertices = np.array(sorted(m[int(i)] for i in r.vertices), dtype=np.int32)
        r.npoints = len(points)
        return r


def listing(rep, name="octa", kind="perm", count=3, grad=False, box=0, free=False, dtype="int64", scale=1):
    P = loader.load("geec.polyhedron")
    pts0 = n.BODIES[name]
    names = ["ox", "oy", "oz", "rho", "Gc"] + (["wx", "wy", "wz"] if kind == "interior" else [])
    h0 = g.ConstHull(pts0)
    for k in range(count):
        perm = rep.rng.sample(range(len(pts0)), len(pts0))
        hull = c07.reorder(h0, rep.rng)
        at = rep.rng.randrange(len(pts0) + 1)

        def alt():
            """another description of the body"""
            if kind == "perm":
                shims.HULL["stub"] = None
                return rel.const_pts([pts0[i] for i in perm])
            if kind == "facets":
                shims.HULL["stub"] = hull
                q = rel.const_pts(pts0)
                return q
            if kind == "dup":
                shims.HULL["stub"] = None
                l = [pts0[i] for i in perm]
                return rel.const_pts(l[:2] + [l[0]] + l[2:] + [l[1]])
            if kind == "int":
                shims.HULL["stub"] = None
                return np.array(pts0, dtype=dtype)
            if kind == "strided":
                shims.HULL["stub"] = None
                big = rel.const_pts(np.zeros((2 * len(pts0), 6)))
                big[::2, ::2] = rel.const_pts(pts0)
                return big[::2, ::2]
            if kind == "fortran":
                shims.HULL["stub"] = None
                return rel.const_pts(pts0).copy(order="F")
            if kind == "interior":
                # w strictly inside: on the inner side of every face
                w = g.vec("w")
                for f in g.faces_of(pts0):
                    A, B, C = (g.arr([S.lift(x) for x in pts0[i]]) for i in f)
                    explore.assume(g.dot(g.cross(B - A, C - A), w - A) < 0)
                shims.HULL["stub"] = with_extra(h0, {at})
                l = [g.arr([S.lift(x) for x in p]) for p in pts0]
                l.insert(at, w)
                return g.arr([list(p) for p in l])

        def run():
            o = g.vec("o")
            if not free:
                rel.box(o, box, scale=scale)
            rel.general(pts0, o)
            rho, Gc = S.var("rho"), S.var("Gc")
            shims.HULL["stub"] = None
            G, T = P.Polyhedron(rel.const_pts(pts0)).get_gravity(o.copy(), rho, Gc, grad)
            p2 = alt()
            shims.HULL["force"] = kind == "facets"
            try:
                poly = P.Polyhedron(p2)
            finally:
                shims.HULL["force"] = False
            G2, T2 = poly.get_gravity(o.copy(), rho, Gc, grad)
            return rel.pairs("G", G2, G) + rel.pairs("T", T2, T)

        def build(env, perm=perm, at=at):
            w = [env[c] for c in ("wx", "wy", "wz")] if kind == "interior" else None
            return {"scenario": "listing", "points": [list(p) for p in pts0], "obs": rel.vals(env, names[:3]), "density": env["rho"], "Gc": env["Gc"], "gradient": grad, "kind": kind, "perm": perm, "at": at, "interior": w, "dtype": dtype}

        ranges = {} if free else rel.box_ranges(["ox", "oy", "oz"], box, scale=scale)
        c = np.mean(pts0, axis=0)
        ranges.update({f"w{a}": (float(c[i]) - 0.25, float(c[i]) + 0.25) for i, a in enumerate("xyz")})
        rel.drive(rep, run, names, build, f"same body listed differently ({kind})", ranges)


B = "observer in a cube (3 reals), density, G any real; "
CASES = [
    Case("perm-tet", listing, B + "tetrahedron, 3 vertex orders, gravity and gradient", budget=300, name="tet", grad=True),
    Case("perm-octa", listing, B + "octahedron, 3 vertex orders", budget=300, box=1),
    Case("perm-seven", listing, B + "7 vertices, 2 vertex orders", budget=300, name="seven", count=2, box=2),
    Case("facets-octa", listing, B + "octahedron, 4 facet orders", budget=300, kind="facets", count=4, box=3),
    Case("facets-cube", listing, B + "cube, 3 facet orders", budget=300, kind="facets", name="cube", box=0),
    Case("facets-tet", listing, B + "tetrahedron, 3 facet orders, gravity and gradient", budget=300, kind="facets", name="tet", grad=True),
    Case("interior-tet", listing, B + "tetrahedron, any interior point added at 3 places, gradient", budget=300, kind="interior", name="tet", grad=True, count=3),
    Case("interior-octa", listing, B + "octahedron, any interior point added at 2 places", budget=300, kind="interior", count=2),
    Case("dup-octa", listing, B + "octahedron, two points repeated", budget=300, kind="dup", count=1),
    Case("int", listing, B + "integer coordinates", budget=300, kind="int", name="tet", count=1, grad=True),
    Case("int-small", listing, B + "int16 coordinates whose products overflow", budget=300, kind="int", name="tet-200", count=1, dtype="int16", scale=200),
    Case("unsigned", listing, B + "uint8 coordinates", budget=300, kind="int", name="tet-pos", count=1, dtype="uint8", grad=True),
    Case("unsigned-32", listing, B + "uint32 coordinates", budget=300, kind="int", name="tet-pos", count=1, dtype="uint32"),
    Case("fortran", listing, B + "column-major array", budget=300, kind="fortran", name="tet", count=1),
    Case("strided", listing, B + "strided view", budget=300, kind="strided", name="pyramid", count=1),
    Case("perm-any", listing, "observer anywhere; tetrahedron, 6 vertex orders, gradient", budget=1500, name="tet", grad=True, count=6, free=True, tiers=("thorough",)),
    Case("facets-any", listing, "observer anywhere; octahedron, 6 facet orders", budget=1500, kind="facets", count=6, free=True, tiers=("thorough",)),
]

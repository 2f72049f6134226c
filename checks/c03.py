"""C03: fields are proportional to density and to the gravitational constant."""
from engine import explore, harness, loader, shims, sym as S
from engine.harness import Case
from . import grav as g
from . import newton as n
from . import rel

META = {
    "explanation": "The code is executed twice on the same body and observer, with symbolic density/G (any real) and with 1, and the results are compared as exact expressions on every path.",
    "level": "other",
    "assumptions": ["real arithmetic"],
}


def linear(rep, name="tet", via="poly", grad=True, free=False):
    P = loader.load("geec.polyhedron")
    St = loader.load("geec.station")
    shims.HULL["stub"] = None
    pts0 = n.BODIES[name]
    names = ["ox", "oy", "oz", "rho", "Gc"]

    def field(poly, o, rho, Gc):
        if via == "poly":
            return poly.get_gravity(o.copy(), rho, Gc, grad)
        s = St.Station(o.copy())
        s.compute_gravity(poly, rho, Gc, grad)
        return s.G, s.T

    def run():
        o = g.vec("o")
        if not free:
            rel.region(o)
        rel.general(pts0, o)
        rho, Gc = S.var("rho"), S.var("Gc")
        G, T = field(P.Polyhedron(rel.const_pts(pts0)), o, rho, Gc)
        G1, T1 = field(P.Polyhedron(rel.const_pts(pts0)), o, 1.0, 1.0)
        k = rho * Gc
        return rel.pairs("G", G, G1 * k) + rel.pairs("T", T, T1 * k)

    def build(env):
        return {"scenario": "linearity", "points": [list(p) for p in pts0], "obs": rel.vals(env, names[:3]), "density": env["rho"], "Gc": env["Gc"], "gradient": grad, "via": via}

    rep_r = dict(rel.far) if not free else None
    rel.drive(rep, run, names, build, "field proportional to density and G", rep_r)


B = "density and G any reals (2), observer symbolic (3) "
CASES = [
    Case("tet-gradient", linear, B + "in an octant, tetrahedron, gradient", budget=300),
    Case("pyramid-gradient", linear, B + "in an octant, pyramid, gradient", budget=300, name="pyramid"),
    Case("cube-station", linear, B + "in an octant, cube, through Station", budget=300, name="cube", via="station", grad=False),
    Case("tet-station", linear, B + "in an octant, tetrahedron, through Station, gradient", budget=300, via="station"),
    Case("pyramid-anywhere", linear, B + "anywhere, pyramid", budget=300, name="pyramid", grad=False, free=True),
    Case("octa-anywhere", linear, B + "anywhere, octahedron", budget=1200, name="octa", grad=False, free=True, tiers=("thorough",)),
    Case("tet-anywhere", linear, B + "anywhere, tetrahedron, gradient", budget=1200, free=True, tiers=("thorough",)),
]

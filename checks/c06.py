"""C06: the field does not depend on the choice of axes, origin or unit of length."""
import numpy as np

from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import grav as g
from . import newton as n
from . import rel

META = {
    "explanation": "The code is executed on a body and observer and on their image under a motion with symbolic parameters (translation vector, scale factor, rotation parameter) or a signed axis permutation; the two results are compared as exact expressions on every path.",
    "level": "other",
    "assumptions": ["real arithmetic (the absolute tolerances of the code are respected by both positions)", "facets of the moved body are those of the original (contract of ConvexHull)"],
}

PERMS = {
    "xy-swap": ((0, 1, 0), (1, 0, 0), (0, 0, 1)),
    "cycle": ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
    "mirror-x": ((-1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "mirror-z": ((1, 0, 0), (0, 1, 0), (0, 0, -1)),
    "point": ((-1, 0, 0), (0, -1, 0), (0, 0, -1)),
    "quarter-x": ((1, 0, 0), (0, 0, -1), (0, 1, 0)),
}


def move(rep, name="tet", kind="translate", grad=False, box=0, free=False, far=3):
    P = loader.load("geec.polyhedron")
    pts0 = n.BODIES[name]
    hull = g.ConstHull(pts0)
    names = ["ox", "oy", "oz"] + {"translate": ["tx", "ty", "tz"], "scale": ["lam"], "rot": ["s"], "rotx": ["s"], "roty": ["s"]}.get(kind, [])

    def run():
        shims.HULL["stub"] = hull
        o = g.vec("o")
        if not free:
            rel.box(o, box)
        one, z = S.lift(1), S.lift(0)
        M = [[one if i == j else z for j in range(3)] for i in range(3)]
        t = [z, z, z]
        lam = one
        if kind == "translate":
            t = [S.var("t" + c) for c in "xyz"]
        elif kind == "scale":
            lam = S.var("lam", positive=True)
            M = [[lam * x for x in r] for r in M]
        elif kind in ("rot", "rotx", "roty"):
            # (1+s^2) times the rotation by 2 atan(s): every angle but pi, times a scaling
            s = S.var("s")
            lam = s * s + 1
            i, j = {"rot": (0, 1), "rotx": (1, 2), "roty": (2, 0)}[kind]
            for a in range(3):
                M[a][a] = lam
            M[i][i] = M[j][j] = 1 - s * s
            M[i][j], M[j][i] = -2 * s, 2 * s
            if not S.HINTS or S.HINTS[0] != lam.g[()]:
                S.HINTS.insert(0, lam.g[()])
        else:
            M = [[S.lift(x) for x in r] for r in PERMS[kind]]
        M = g.arr(M)

        def im(p):
            return g.arr([g.dot(M[i], p) + t[i] for i in range(3)])

        q, faces = rel.general(pts0, o)
        P2 = [im(g.arr([S.lift(x) for x in p])) for p in pts0]
        o2 = im(o)
        edges = sorted({tuple(sorted((f[i], f[(i + 1) % 3]))) for f in faces for i in range(3)})
        g.assume_general([p - o2 for p in P2], faces, edges)
        rho, Gc = S.lift(1000), S.lift(1)
        G, T = P.Polyhedron(rel.const_pts(pts0)).get_gravity(o.copy(), 1.0, 1.0, grad)
        G2, T2 = P.Polyhedron(g.arr([list(p) for p in P2])).get_gravity(o2.copy(), 1.0, 1.0, grad)
        want = g.arr([g.dot(M[i], G) for i in range(3)])
        out = rel.pairs("G", G2, want)
        if grad:
            # M = lam R: T' = R T R^t
            MT = [[sum((M[i][k] * S.lift(T[k][j]) for k in range(3)), S.lift(0)) for j in range(3)] for i in range(3)]
            W = [[sum((MT[i][k] * M[j][k] for k in range(3)), S.lift(0)) / (lam * lam) for j in range(3)] for i in range(3)]
            out += rel.pairs("T", T2, g.arr(W))
        return out

    def build(env):
        d = {k: env[k] for k in names}
        return {"scenario": "frame", "points": [list(p) for p in pts0], "obs": [d[k] for k in names[:3]], "kind": kind if kind not in PERMS else "perm", "matrix": [list(r) for r in PERMS.get(kind, ((1, 0, 0), (0, 1, 0), (0, 0, 1)))], "params": d, "gradient": grad}

    ranges = {} if free else rel.box_ranges(["ox", "oy", "oz"], box)
    ranges["lam"] = (1, 5)
    ranges["t"] = (-far, far)
    rel.drive(rep, run, names, build, "field of the moved body at the moved observer", ranges)


B = "observer in a cube (3 reals), "
CASES = [
    Case("translate", move, B + "translation any vector (3 reals); tetrahedron; gravity and gradient", budget=300, grad=True),
    Case("translate-cube", move, B + "translation any vector; cube", budget=300, name="cube", box=1),
    Case("translate-pyramid", move, "observer anywhere, translation any vector; pyramid", budget=300, name="pyramid", free=True),
    Case("translate-small", move, B + "translation any vector; tetrahedron much smaller than the distances", budget=300, name="tet-small", far=60),
    Case("scale", move, B + "any scale > 0; tetrahedron; gravity and gradient", budget=300, kind="scale", grad=True),
    Case("scale-octa", move, B + "any scale > 0; octahedron", budget=300, kind="scale", name="octa", box=2),
    Case("rot", move, B + "any rotation about z and scaling; tetrahedron", budget=300, kind="rot"),
    Case("rotx", move, B + "any rotation about x and scaling; tetrahedron", budget=300, kind="rotx", box=1),
    Case("roty", move, B + "any rotation about y and scaling; pyramid", budget=300, kind="roty", name="pyramid", box=3),
] + [
    Case(f"perm-{k}", move, B + f"axes {k}; tetrahedron; gravity and gradient", budget=300, kind=k, grad=True, box=i)
    for i, k in enumerate(PERMS)
] + [
    Case("rot-T", move, B + "any rotation about z and scaling; tetrahedron; gradient", budget=1500, kind="rot", grad=True, tiers=("thorough",)),
    Case("perm-cube-any", move, "observer anywhere, cyclic axes; cube", budget=1500, kind="cycle", name="cube", free=True, tiers=("thorough",)),
    Case("scale-any", move, "observer anywhere, any scale; tetrahedron; gradient", budget=1500, kind="scale", free=True, grad=True, tiers=("thorough",)),
]

"""C04: superposition."""
import numpy as np

from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import grav as g
from . import newton as n
from . import rel

META = {
    "explanation": "Station.compute_gravity is executed with bodies whose field is an uninterpreted function of observer, density, G and the gradient flag, so the accumulation is decided for every field value; the pieces of a cut body are executed through the real gravity code.",
    "level": "other",
    "assumptions": ["real arithmetic", "for the accumulation cases the field of one body is an arbitrary function (bounded number of bodies and calls)"],
}

BOD = ["tet", "pyramid", "prism", "octa"]


def fake_bodies(P, k):
    """bodies that pass for Polyhedron and whose field is uninterpreted"""
    out = []
    for i in range(k):
        class Body(P.Polyhedron):
            def __init__(self, i):
                self.i = i
                self.faces = []
                self.points = rel.const_pts(n.BODIES[BOD[i]])

            def get_gravity(self, coord, density, Gc, gradient=False):
                a = [S.lift(x) for x in coord] + [S.lift(density), S.lift(Gc)]
                gr = 1 if gradient else 0
                G = g.arr([S.uf(f"g{self.i}_{c}", *a) for c in range(3)])
                T = g.arr([[S.uf(f"t{self.i}_{min(r, c)}{max(r, c)}", *a) * gr for c in range(3)] for r in range(3)])
                return (G, T)

        out.append(Body(i))
    return out


def accumulate(rep, calls=((0,),), aslist=True, grads=(True,)):
    P = loader.load("geec.polyhedron")
    St = loader.load("geec.station")
    nb = 1 + max(max(c) for c in calls)
    names = ["ox", "oy", "oz"] + [f"rho{i}" for i in range(len(calls))] + [f"Gc{i}" for i in range(len(calls))]

    def run():
        o = g.vec("o")
        bodies = fake_bodies(P, nb)
        st = St.Station(o.copy())
        G0, T0 = g.arr([S.lift(0)] * 3), g.arr([[S.lift(0)] * 3] * 3)
        out = []
        for k, idx in enumerate(calls):
            rho, Gc = S.var(f"rho{k}"), S.var(f"Gc{k}")
            lst = [bodies[i] for i in idx]
            st.compute_gravity(lst if aslist or len(lst) > 1 else lst[0], rho, Gc, grads[k % len(grads)])
            for b in lst:
                G, T = b.get_gravity(o, rho, Gc, grads[k % len(grads)])
                G0, T0 = G0 + G, T0 + T
            out += rel.pairs(f"call{k} G", st.G, G0) + rel.pairs(f"call{k} T", st.T, T0)
        out += rel.pairs("coord", st.coord, o)
        return out

    def build(env):
        cs = [{"bodies": list(c), "density": env[f"rho{k}"], "Gc": env[f"Gc{k}"], "gradient": grads[k % len(grads)], "list": aslist or len(c) > 1} for k, c in enumerate(calls)]
        o = [abs(x) + 5 for x in rel.vals(env, names[:3])]
        return {"scenario": "superposition", "obs": o, "bodies": [[list(p) for p in n.BODIES[b]] for b in BOD[:nb]], "calls": cs}

    rel.drive(rep, run, names, build, "station field is the sum over bodies and calls")


def stations(rep):
    """two stations computed in turn keep their own totals"""
    P = loader.load("geec.polyhedron")
    St = loader.load("geec.station")
    plan = ((0, (0,)), (1, (1,)), (0, (1, 0)), (1, (0,)))
    names = [f"{o}{c}" for o in "op" for c in "xyz"] + [f"{v}{k}" for k in range(4) for v in ("rho", "Gc")]

    def run():
        os_ = [g.vec("o"), g.vec("p")]
        bodies = fake_bodies(P, 2)
        sts = [St.Station(o.copy()) for o in os_]
        tot = [[g.arr([S.lift(0)] * 3), g.arr([[S.lift(0)] * 3] * 3)] for _ in sts]
        out = []
        for k, (i, idx) in enumerate(plan):
            rho, Gc = S.var(f"rho{k}"), S.var(f"Gc{k}")
            sts[i].compute_gravity([bodies[b] for b in idx], rho, Gc, k != 1)
            for b in idx:
                G, T = bodies[b].get_gravity(os_[i], rho, Gc, k != 1)
                tot[i] = [tot[i][0] + G, tot[i][1] + T]
            for j in (0, 1):
                out += rel.pairs(f"call{k} station{j} G", sts[j].G, tot[j][0]) + rel.pairs(f"call{k} station{j} T", sts[j].T, tot[j][1])
        return out

    def build(env):
        cs = [{"station": i, "bodies": list(c), "density": env[f"rho{k}"], "Gc": env[f"Gc{k}"], "gradient": k != 1} for k, (i, c) in enumerate(plan)]
        o = [[abs(x) + 5 for x in rel.vals(env, names[j : j + 3])] for j in (0, 3)]
        return {"scenario": "stations", "obs": o, "bodies": [[list(p) for p in n.BODIES[b]] for b in BOD[:2]], "calls": cs}

    rel.drive(rep, run, names, build, "each station holds the sum of its own calls")


def temporaries(rep):
    """bodies made for one call and dropped after it: another one may take their place in
    memory"""
    P = loader.load("geec.polyhedron")
    St = loader.load("geec.station")
    names = ["ox", "oy", "oz", "rho", "Gc"]

    def run():
        o, rho, Gc = g.vec("o"), S.var("rho"), S.var("Gc")
        st = St.Station(o.copy())
        G0, T0 = g.arr([S.lift(0)] * 3), g.arr([[S.lift(0)] * 3] * 3)
        out = []
        for k in range(3):
            st.compute_gravity(fake_bodies(P, k + 1)[k] if k != 1 else fake_bodies(P, k + 1)[k:], rho, Gc, True)
            G, T = fake_bodies(P, k + 1)[k].get_gravity(o, rho, Gc, True)
            G0, T0 = G0 + G, T0 + T
            out += rel.pairs(f"call{k} G", st.G, G0) + rel.pairs(f"call{k} T", st.T, T0)
        return out

    def build(env):
        o = [abs(x) + 5 for x in rel.vals(env, names[:3])]
        return {"scenario": "temporaries", "obs": o, "bodies": [[list(p) for p in n.BODIES[b]] for b in BOD[:3]], "density": env["rho"], "Gc": env["Gc"]}

    rel.drive(rep, run, names, build, "bodies dropped between calls are counted each")


def refuse(rep):
    P = loader.load("geec.polyhedron")
    St = loader.load("geec.station")
    names = ["ox", "oy", "oz", "rho", "Gc"]
    junks = {"none": None, "array": np.zeros((4, 3)), "str": "cube", "tuple": (1, 2, 3)}
    for jn, junk in junks.items():
        for at in (0, 1, 2):
            def run(at=at, junk=junk):
                o = g.vec("o")
                bodies = fake_bodies(P, 2)
                st = St.Station(o.copy())
                rho, Gc = S.var("rho"), S.var("Gc")
                st.compute_gravity(bodies[0], rho, Gc, True)
                G, T = st.G.copy(), st.T.copy()
                lst = list(bodies)
                lst.insert(at, junk)
                try:
                    st.compute_gravity(lst, rho, Gc, True)
                    ok = False
                except TypeError:
                    ok = True
                return [(ok, "refused with TypeError")] + rel.pairs("G", st.G, G) + rel.pairs("T", st.T, T)

            def build(env, at=at, jn=jn):
                return {"scenario": "bad_body", "obs": [6, 7, 5], "bodies": [[list(p) for p in n.BODIES[b]] for b in BOD[:2]], "junk": jn, "at": at, "list": True}

            rel.drive(rep, run, names, build, "junk among the bodies is refused without effect")


def pieces(rep, grad=False, free=False, which="bipyramid"):
    """a body cut by a plane"""
    P = loader.load("geec.polyhedron")
    shims.HULL["stub"] = None
    if which == "bipyramid":  # glued along one face: the pieces have the faces of the whole
        a, b, c, d, e = (2, 0, 0), (-1, 2, 0), (-1, -2, 0), (0, 0, 3), (0, 0, -1)
        whole, parts = [a, b, c, d, e], [[a, b, c, d], [a, b, c, e]]
    else:  # octahedron in four tetrahedra around an axis
        a, b, c, d, e, f = n.BODIES["octa"]
        whole, parts = [a, b, c, d, e, f], [[a, c, e, f], [c, b, e, f], [b, d, e, f], [d, a, e, f]]
    names = ["ox", "oy", "oz", "rho", "Gc"]

    def run():
        o = g.vec("o")
        if not free:
            rel.region(o)
        for p in [whole] + parts:
            rel.general(p, o)
        rho, Gc = S.var("rho"), S.var("Gc")
        G, T = P.Polyhedron(rel.const_pts(whole)).get_gravity(o.copy(), rho, Gc, grad)
        Gs, Ts = 0, 0
        for p in parts:
            x, y = P.Polyhedron(rel.const_pts(p)).get_gravity(o.copy(), rho, Gc, grad)
            Gs, Ts = Gs + x, Ts + y
        return rel.pairs("G", Gs, G) + rel.pairs("T", Ts, T)

    def build(env):
        return {"scenario": "cut", "obs": rel.vals(env, names[:3]), "whole": [list(p) for p in whole], "pieces": [[list(p) for p in x] for x in parts], "density": env["rho"], "Gc": env["Gc"], "gradient": grad}

    rel.drive(rep, run, names, build, "field of the body is the sum over its pieces", None if free else dict(rel.far))


B = "station coordinates, densities, G and body fields arbitrary reals; "
CASES = [
    Case("one", accumulate, B + "1 body given without a list", budget=100, calls=((0,),), aslist=False),
    Case("list4", accumulate, B + "4 bodies in one call", budget=100, calls=((0, 1, 2, 3),)),
    Case("calls", accumulate, B + "3 calls, different density/G/gradient flag, a body repeated", budget=100, calls=((0, 1), (2,), (1, 0)), grads=(True, False, True)),
    Case("mixed", accumulate, B + "4 calls with single bodies", budget=100, calls=((0,), (1,), (0,), (2,)), aslist=False, grads=(False, True)),
    Case("empty", accumulate, B + "same body twice in a list", budget=100, calls=((0, 0), (1, 0, 1))),
    Case("stations", stations, "two stations, 4 calls in turn; coordinates, densities, G and fields arbitrary reals", budget=100),
    Case("temporaries", temporaries, B + "3 calls, each body dropped after its call", budget=100),
    Case("refuse", refuse, "4 kinds of junk at 3 places among 2 bodies", budget=200),
    Case("pieces", pieces, "bipyramid cut in two; observer in an octant (3 reals), density, G any real; gravity and gradient", budget=400, grad=True),
    Case("pieces-any", pieces, "bipyramid cut in two; observer anywhere; gravity", budget=400, free=True),
    Case("pieces-octa", pieces, "octahedron in 4 pieces; observer in an octant; gravity", budget=400, which="octa"),
    Case("pieces-octa-T", pieces, "octahedron in 4 pieces; observer in an octant; gravity and gradient", budget=1200, which="octa", grad=True, tiers=("thorough",)),
]

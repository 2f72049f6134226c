"""C01 / C02: attraction and gradient tensor of a body against Newton's law."""
import itertools
from fractions import Fraction

import numpy as np

from engine import explore, harness, loader, shims, sym as S
from . import grav as g

TET_EDGES = list(itertools.combinations(range(4), 2))
CS = "xyz"

BODIES = {
    "cube": [(-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0), (-1, -1, -2), (1, -1, -2), (1, 1, -2), (-1, 1, -2)],
    "octa": [(2, 0, 0), (-2, 0, 0), (0, 3, 0), (0, -1, 0), (0, 0, 1), (0, 0, -2)],
    "prism": [(0, 0, 0), (3, 0, 0), (0, 2, 0), (0, 0, 2), (3, 0, 2), (0, 2, 2)],
    "tet": [(0, 0, 0), (3, 0, 1), (1, 2, 0), (1, 1, -2)],
    "tet-pos": [(1, 1, 2), (4, 1, 3), (2, 3, 2), (2, 2, 0)],
    "tet-200": [(0, 0, 0), (600, 0, 200), (200, 400, 0), (200, 200, -400)],
    "tet-fine": [(2.0**-21, 0, -(2.0**-23)), (3, 2.0**-22, 1), (1, 2 + 2.0**-24, 2.0**-20), (1, 1, -2 - 2.0**-21)],
    "tet-small": [(0, 0, 0), (0.1875, 0, 0.0625), (0.0625, 0.125, 0), (0.0625, 0.0625, -0.125)],
    "pyramid": [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 3)],
    "twelve": [(0, 5, 8), (0, 5, -8), (0, -5, 8), (0, -5, -8), (5, 8, 0), (5, -8, 0), (-5, 8, 0), (-5, -8, 0), (8, 0, 5), (-8, 0, 5), (8, 0, -5), (-8, 0, -5)],
    # points inside the body listed between its vertices
    "octa-in": [(2, 0, 0), (0, 0, 0), (-2, 0, 0), (0, 3, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 1, -1), (0, 0, -2), (1, 0, 0)],
    "tet-in": [(0, 0, 0), (8, 0, 0), (1, 1, 1), (0, 8, 0), (2, 1, 1), (0, 0, 8), (1, 2, 1), (1, 1, 2), (1, 1, 3), (3, 1, 1)],
    "seven": [(0, 0, 0), (4, 0, 1), (1, 3, 0), (-2, 2, 1), (-1, -2, 1), (2, -3, 0), (1, 1, 4)],
}


# ------------------------------------------------------------------ tetrahedron slices
def tetra_inputs(slice_):
    """(q, o, names): vertices relative to the observer"""
    o = g.vec("o")
    names = ["o" + c for c in CS]
    if slice_ == "generic":
        q = [g.vec(f"q{i}") for i in range(4)]
        names += [f"q{i}{c}" for i in range(4) for c in CS]
        return q, o, names, (), ()
    if slice_ == "inplane":  # observer in the plane of the face 0,1,2
        al, be = S.var("al"), S.var("be")
        A, B = g.vec("A"), g.vec("B")
        q0 = g.arr([-(al * A[c]) - be * B[c] for c in range(3)])
        q = [q0, q0 + A, q0 + B, g.vec("q3")]
        names += ["al", "be"] + [f"{n}{c}" for n in ("A", "B", "q3") for c in CS]
        return q, o, names, (frozenset((0, 1, 2)),), ()
    if slice_ in ("online", "online-far"):  # observer on the line of the edge 0,1, outside the edge
        nu, de = S.var("nu", positive=True), S.var("de", positive=True)
        D = g.vec("D")
        near, far = g.arr([nu * D[c] for c in range(3)]), g.arr([(nu + de) * D[c] for c in range(3)])
        explore.assume(2 * nu * g.norm(D) > g.EPS)
        ends = [near, far] if slice_ == "online" else [far, near]
        q = ends + [g.vec("q2"), g.vec("q3")]
        names += ["nu", "de"] + [f"{n}{c}" for n in ("D", "q2", "q3") for c in CS]
        return q, o, names, (frozenset((0, 1, 2)), frozenset((0, 1, 3))), (frozenset((0, 1)),)
    if slice_ == "legs":  # right-angled tetrahedron with symbolic legs
        a, b, c = (S.var(n, positive=True) for n in ("la", "lb", "lc"))
        z = S.lift(0)
        P = [g.arr([z, z, z]), g.arr([a, z, z]), g.arr([z, b, z]), g.arr([z, z, c])]
        return [p - o for p in P], o, names + ["la", "lb", "lc"], (), ()
    if slice_ == "apex":  # concrete base, symbolic apex
        P = [[0, 0, 0], [3, 0, 1], [1, 2, 0]]
        P = [g.arr([S.lift(x) for x in p]) for p in P] + [g.vec("v")]
        return [p - o for p in P], o, names + ["vx", "vy", "vz"], (), ()
    if slice_ == "shape1":
        a, c = S.var("la", positive=True), S.var("lc", positive=True)
        t, z, one = S.var("t"), S.lift(0), S.lift(1)
        P = [g.arr([z, z, z]), g.arr([a, z, z]), g.arr([z, one * 2, z]), g.arr([one, one, c])]
        o = g.arr([t, S.lift(Fraction(-3, 2)), S.lift(Fraction(5, 2))])
        return [p - o for p in P], o, ["la", "lc", "t"], (), ()
    raise KeyError(slice_)


def hints(q):
    """polynomials that appear squared under the code's square roots"""
    if S.HINTS:
        return
    for f in g.TET_FACES:
        d = g.det3(*[q[i] for i in f])
        if d.g and () in d.g and len(d.g) == 1:
            S.HINTS.append(S.split_content(d.g[()])[2])


def tetra_assume(q, inplane, online, slice_):
    g.assume_general(q, g.TET_FACES, TET_EDGES, inplane, online)
    explore.assume(g.det3(q[1] - q[0], q[2] - q[0], q[3] - q[0]) != 0)


def sampler_for(names):
    def f(rng):
        env = {}
        for n in names:
            v = g.dyadic(rng)
            if n in ("nu", "de", "rho", "Gc"):
                v = abs(v)
            env[n] = v
        return env

    return f


def lookup(vs, env):
    """exact rational value of polynomial coordinates"""
    out = []
    for v in vs:
        v = S.lift(v)
        tot = Fraction(0)
        for d, p in v.g.items():
            assert not d
            for m, c in p.t.items():
                t = Fraction(c)
                for a, e in m:
                    t *= Fraction(env[S.ATOMS[a].name]) ** e
                tot += t
        out.append(tot)
    return out


def tetra(rep, slice_="generic", order=((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)), gradient=False, what=("G",), max_paths=400):
    P = loader.load("geec.polyhedron")
    shims.HULL["stub"] = g.tetra_hull(order)
    cell = {}

    def run():
        q, o, names, inplane, online = tetra_inputs(slice_)
        hints(q)
        tetra_assume(q, inplane, online, slice_)
        rho, Gc = S.var("rho", True), S.var("Gc", True)
        pts = g.arr([list(x + o) for x in q])
        cell.update(q=q, o=o, pts=pts, names=names + ["rho", "Gc"])
        faces = g.tetra_faces(q)  # decides the orientation first
        poly = P.Polyhedron(pts)
        out = poly.get_gravity(o.copy(), rho, Gc, gradient)
        ref = g.attraction_ref(q, faces, rho, Gc, inplane)
        cell.update(ref=ref, faces=faces)
        tref = None
        if "T" in what:
            tref = g.tensor_ref(q, faces, rho, Gc, inplane)
        return out, ref, tref

    finish(rep, run, cell, what, gradient, max_paths)


def ad_tensor(ref, faces, seeds_of):
    """derivative of the reference attraction by automatic differentiation"""
    T = [[S.lift(0)] * 3 for _ in range(3)]
    for j, c in enumerate(CS):
        cache = {}
        for gf in ref:
            for i in range(3):
                T[i][j] = T[i][j] + S.diff(gf[i], seeds_of(c), cache) * 10000
    return T


def finish(rep, run, cell, what, gradient, max_paths, ranges=None):
    sampler = None
    for path in explore.explore(run, max_paths=max_paths, timeouts=(300, 700), deadline=rep.deadline, pool=rep.pool(ranges)):
        rep.paths += 1
        sampler = sampler_for(cell["names"])

        def build(env, cell=dict(cell)):
            return {
                "scenario": "gravity",
                "points": [lookup(p, env) for p in cell["pts"]],
                "obs": lookup(cell["o"], env),
                "density": env.get("rho", 1000),
                "Gc": env.get("Gc", 1),
                "gradient": gradient,
                "what": list(what),
            }

        if path.exc is not None:
            rep.exc_paths += 1
            rep.obligations += 1
            rep.refute(path, [("no exception: " + repr(path.exc)[:80], None)], cell["names"], sampler, build, "computation raises")
            continue
        (G, T), ref, tref = path.result
        pairs = []
        if "G" in what:
            tot = g.vsum(ref)
            pairs += [(G[i], tot[i], f"G{CS[i]}") for i in range(3)]
        if "T" in what:
            for i in range(3):
                for j in range(i, 3):
                    pairs.append((T[i][j], tref[i][j], f"T{CS[i]}{CS[j]}"))
        left = rep.prove_equal(path, pairs, "attraction equals the closed-form Newtonian value")
        if "T" in what:
            for i, j in ((1, 0), (2, 0), (2, 1)):
                rep.obligations += 1
                if any(harness._bad(x) for x in (T[i][j], T[j][i])):
                    left.append((f"T{CS[i]}{CS[j]}", None))
                elif S.is_zero(S.lift(T[i][j]) - T[j][i]) or S.is_zero(S.lift(T[i][j]) - tref[i][j]):
                    rep.proved += 1
                else:
                    left.append((f"T{CS[i]}{CS[j]} symmetric", S.lift(T[i][j]) - tref[j][i]))
        if left:
            rep.refute(path, left, cell["names"], sampler, build, "differs from Newtonian value")
            if len(rep.candidates) >= 12:
                rep.notes.append("stopped after 12 candidates")
                return
        else:
            rep.reach(path, sampler, 60 if rep.witness else 2000)


# ---------------------------------------------------------------------- concrete bodies
def place_at(pts, where):
    """observer position: free, in the plane of three vertices, or on the line of two"""
    if where is None:
        return g.vec("o"), ["ox", "oy", "oz"]
    P = [g.arr([S.lift(x) for x in pts[i]]) for i in where]
    s_ = S.var("s")
    if len(where) == 2:
        return g.arr(list(P[0] + (P[1] - P[0]) * s_)), ["s"]
    t_ = S.var("t")
    return g.arr(list(P[0] + (P[1] - P[0]) * s_ + (P[2] - P[0]) * t_)), ["s", "t"]


def body_setup(pts0, where, names, region=None, near=None):
    """near: place on the line of an edge and direction of a displacement, some 1e-5 long"""
    faces = g.faces_of(pts0)
    edges = sorted({tuple(sorted((f[i], f[(i + 1) % 3]))) for f in faces for i in range(3)})
    nearline = ()
    if near is None:
        o, nm = place_at(pts0, where)
        names += nm
    else:  # (place on the line, direction)
        v = S.var("v", positive=True)
        names += ["v"]
        nearline = (frozenset(where),)
        P, Q = (pts0[i] for i in where)
        o = g.arr([S.lift(P[c] + near[0] * (Q[c] - P[c])) + v * near[1][c] for c in range(3)])
        explore.assume(v < Fraction(1, 2**16))
    pts = g.arr([[S.lift(x) for x in p] for p in pts0])
    q = [p - o for p in pts]
    inplane = {frozenset(f) for f in faces if S.is_zero(g.det3(*[q[i] for i in f]))}
    online = {frozenset(e) for e in edges if all(S.is_zero(x) for x in g.cross(q[e[0]], q[e[1]]))}
    for e in edges:
        if frozenset(e) in online:
            explore.assume(g.dot(q[e[0]], q[e[1]]) > 0)  # not on the edge itself
    if not S.HINTS:
        for f in faces:
            d = g.det3(*[q[i] for i in f])
            if d.g:
                h = S.split_content(d.g[()])[2]
                if not h.is_const():
                    S.HINTS.append(h)
    if region is not None:
        region(o)
    if inplane:
        # outside of the body: some face sees the observer
        out = []
        for f in faces:
            if frozenset(f) not in inplane:
                a, b, c = (q[i] for i in f)
                out.append(g.dot(g.cross(b - a, c - a), a) < 0)
        explore.assume(S.s_or(*out))
    g.assume_general(q, faces, edges, inplane, online, nearline)
    return q, o, pts, faces, inplane


def body(rep, name="cube", gradient=False, what=("G",), region=None, where=None, near=None, max_paths=2000):
    """concrete vertices, observer symbolic"""
    P = loader.load("geec.polyhedron")
    pts0 = BODIES[name]
    shims.HULL["stub"] = None
    cell = {}

    def run():
        names = []
        q, o, pts, faces, inplane = body_setup(pts0, where, names, region, near)
        rho, Gc = S.var("rho", True), S.var("Gc", True)
        cell.update(q=q, o=o, pts=pts, names=names + ["rho", "Gc"])
        poly = P.Polyhedron(shims.array([[float(x) for x in p] for p in pts0]))
        out = poly.get_gravity(o.copy(), rho, Gc, gradient)
        ref = g.attraction_ref(q, faces, rho, Gc, inplane)
        tref = g.tensor_ref(q, faces, rho, Gc, inplane) if "T" in what else None
        return out, ref, tref

    finish(rep, run, cell, what, gradient, max_paths, {"v": lambda r: r.randint(8, 63) / 2**22} if near else {"far": ("ox", "oy", "oz")})


def lemma(rep):
    """the closed-form tensor used as the specification is the derivative of the closed-form
    attraction: one triangle, nine symbolic coordinates"""

    def run():
        R = [g.vec(f"q{i}") for i in range(3)]
        d = S.split_content(g.det3(*R).g[()])[2]
        if not S.HINTS:
            S.HINTS.append(d)
        g.assume_general(R, [(0, 1, 2)], [(0, 1), (1, 2), (0, 2)])
        n, h, w, E = g.face_ref(R)
        c = g.cross(E, n)
        ref = [h * (n[i] * w + c[i]) * (-100000) for i in range(3)]
        T = g.face_tensor(R, 1, 1)
        D = [[None] * 3 for _ in range(3)]
        for j, ch in enumerate(CS):
            cache = {}
            for i in range(3):
                D[i][j] = S.diff(ref[i], {f"q{k}{ch}": -1 for k in range(3)}, cache) * 10000
        return T, D

    for path in explore.explore(run, deadline=rep.deadline, pool=rep.pool()):
        rep.paths += 1
        T, D = path.result
        left = rep.prove_equal(path, [(T[i][j], D[i][j], f"T{i}{j}") for i in range(3) for j in range(3)], "closed-form tensor is the derivative of the closed-form attraction")
        for lab, d in left:
            rep.undecided.append({"what": "specification lemma", "label": lab})
        rep.reach(path)

"""Scenarios replayed on the unpatched code.  Each returns '' when the behaviour is right
and a description of the misbehaviour otherwise."""
import math

import numpy as np

RTOL = 1e-7
ATOL = 1e-11  # of the natural size of the terms the field is summed from: rounding, not behaviour


def _reldiff(a, b, scale=None, nat=0.0):
    """largest difference relative to the reference, 0 when within rounding of `nat`"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return math.inf
    if not np.all(np.isfinite(a)):
        return math.inf
    s = scale if scale is not None else max(float(np.max(np.abs(b))), 1e-300)
    d = float(np.max(np.abs(a - b)))
    return 0.0 if d <= ATOL * nat else d / s


def _natural(pts, obs, rho, Gc):
    """natural sizes of the terms summed into G (mGal) and T (Eotvos)"""
    pts, obs = np.atleast_2d(np.asarray(pts, dtype=float)), np.asarray(obs, dtype=float)
    d = max(float(np.ptp(pts, axis=0).max()), float(np.abs(pts - obs).max()))
    k = abs(float(rho) * float(Gc))
    return k * 1e5 * d, k * 1e9


def _fl(M):
    return np.array([[float(x) for x in r] for r in M]) if isinstance(M[0], list) else np.array([float(x) for x in M])


def gravity(spec, num):
    """Polyhedron(points).get_gravity(obs) against the Newtonian field"""
    from engine import oracle
    from geec.polyhedron import Polyhedron

    pts = np.array(num(spec["points"]))
    obs = np.array(num(spec["obs"]))
    rho, Gc = num(spec["density"]), num(spec["Gc"])
    grad = spec.get("gradient", False)
    what = spec.get("what", ["G", "T"])
    G0, T0 = oracle.field(pts.tolist(), obs.tolist(), rho, Gc)
    G0, T0 = _fl(G0), _fl(T0)
    try:
        G, T = Polyhedron(pts.copy()).get_gravity(obs.copy(), rho, Gc, grad)
    except Exception as e:  # noqa: BLE001
        return f"points={pts.tolist()} obs={obs.tolist()}: raised {type(e).__name__}: {e}"
    bad = []
    nG, nT = _natural(pts, obs, rho, Gc)
    if "G" in what:
        d = _reldiff(G, G0, nat=nG)
        if d > RTOL:
            bad.append(f"gravity {np.asarray(G).tolist()} instead of {G0.tolist()} (relative {d:.2e})")
    if "T" in what and grad:
        d = _reldiff(T, T0, nat=nT)
        if d > RTOL:
            bad.append(f"gradient {np.asarray(T).tolist()} instead of {T0.tolist()} (relative {d:.2e})")
    if bad:
        return f"points={pts.tolist()} obs={obs.tolist()} density={rho} Gc={Gc}: " + "; ".join(bad)
    return ""


def _field(pts, obs, rho, Gc, grad, via="poly"):
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    pts, obs = np.array(pts, dtype=float), np.array(obs, dtype=float)
    poly = Polyhedron(pts)
    if via == "poly":
        return poly.get_gravity(obs, rho, Gc, grad)
    st = Station(obs)
    st.compute_gravity(poly, rho, Gc, grad)
    return st.G, st.T


def _differ(tag, a, b, bad, rtol=RTOL, scale=None, nat=0.0):
    d = _reldiff(a, b, scale, nat)
    if d > rtol:
        bad.append(f"{tag}: {np.asarray(a).tolist()} instead of {np.asarray(b).tolist()} (relative {d:.2e})")


def linearity(spec, num):
    pts, obs = num(spec["points"]), num(spec["obs"])
    rho, Gc, grad = num(spec["density"]), num(spec["Gc"]), spec["gradient"]
    bad = []
    G1, T1 = _field(pts, obs, 1.0, 1.0, grad, spec["via"])
    try:
        G, T = _field(pts, obs, rho, Gc, grad, spec["via"])
    except Exception as e:  # noqa: BLE001
        return f"density={rho} G={Gc}: raised {e!r}"
    nG, nT = _natural(pts, obs, rho, Gc)
    _differ(f"density={rho} G={Gc} gravity", G, np.array(G1) * rho * Gc, bad, 1e-9, nat=nG)
    _differ(f"density={rho} G={Gc} gradient", T, np.array(T1) * rho * Gc, bad, 1e-9, nat=nT)
    if bad:
        return f"points={pts} obs={obs}: " + "; ".join(bad)
    return ""


def superposition(spec, num):
    """as given; then with other densities: the model's fields are arbitrary, those of real
    bodies take small or nearly opposite values through the densities"""
    out = _superposition(spec, num)
    calls = spec["calls"]
    n = len(calls)
    for size in (1e-2, 1e-7, 1e-10, 1e-13):  # density times G, of all calls or of the last one
        for which in [range(n)] + [[n - 1]] * (n > 1):
            if out:
                break
            cs = [dict(c) for c in calls]
            for k in which:
                cs[k]["density"] = float(np.copysign(size / abs(num(cs[k]["Gc"]) or 1.0), num(cs[k]["density"])))
            out = _superposition(dict(spec, calls=cs), num)
    for k in range(1, len(calls)):
        if out:
            break
        cs = [dict(c) for c in calls]
        a, b = cs[k - 1], cs[k]
        b.update(bodies=a["bodies"], list=a["list"], Gc=a["Gc"], density=-float(num(a["density"])) * (1 + 2e-6))
        out = _superposition(dict(spec, calls=cs), num)
    return out


def _superposition(spec, num):
    """Station accumulates the fields of the bodies it is given"""
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    obs = np.array(num(spec["obs"]), dtype=float)
    bodies = [np.array(num(b), dtype=float) for b in spec["bodies"]]
    bad = []
    G0, T0 = np.zeros(3), np.zeros((3, 3))
    nG = nT = 0.0
    st = Station(obs.copy())
    objs = [Polyhedron(b.copy()) for b in bodies]
    try:
        for call in spec["calls"]:
            idx, rho, Gc, grad, aslist = call["bodies"], num(call["density"]), num(call["Gc"]), call["gradient"], call["list"]
            polys = [objs[i] for i in idx]
            st.compute_gravity(polys if aslist else polys[0], rho, Gc, grad)
            for i in idx:
                G, T = Polyhedron(bodies[i].copy()).get_gravity(obs.copy(), rho, Gc, grad)
                G0, T0 = G0 + G, T0 + T
                a, b = _natural(bodies[i], obs, rho, Gc)
                nG, nT = nG + a, nT + b
    except Exception as e:  # noqa: BLE001
        return f"obs={obs.tolist()} calls={spec['calls']}: raised {e!r}"
    _differ("station gravity", st.G, G0, bad, nat=nG)
    _differ("station gradient", st.T, T0, bad, nat=nT)
    if list(st.coord) != list(obs):
        bad.append(f"station moved to {st.coord}")
    return f"obs={obs.tolist()} calls={spec['calls']}: " + "; ".join(bad) if bad else ""


def stations(spec, num):
    """each of several stations holds the sum of its own calls"""
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    obs = [np.array(num(o), dtype=float) for o in spec["obs"]]
    bodies = [np.array(num(b), dtype=float) for b in spec["bodies"]]
    bad = []
    try:
        sts = [Station(o.copy()) for o in obs]
        objs = [Polyhedron(b.copy()) for b in bodies]
        tot = [[np.zeros(3), np.zeros((3, 3)), 0.0, 0.0] for _ in sts]
        for call in spec["calls"]:
            j, rho, Gc, grad = call["station"], num(call["density"]), num(call["Gc"]), call["gradient"]
            sts[j].compute_gravity([objs[i] for i in call["bodies"]], rho, Gc, grad)
            for i in call["bodies"]:
                G, T = Polyhedron(bodies[i].copy()).get_gravity(obs[j].copy(), rho, Gc, grad)
                a, b = _natural(bodies[i], obs[j], rho, Gc)
                tot[j] = [tot[j][0] + G, tot[j][1] + T, tot[j][2] + a, tot[j][3] + b]
    except Exception as e:  # noqa: BLE001
        return f"calls={spec['calls']}: raised {e!r}"
    for j, st in enumerate(sts):
        _differ(f"station {j} gravity", st.G, tot[j][0], bad, nat=tot[j][2])
        _differ(f"station {j} gradient", st.T, tot[j][1], bad, nat=tot[j][3])
    return f"stations={spec['obs']} calls={spec['calls']}: " + "; ".join(bad) if bad else ""


def temporaries(spec, num):
    """bodies built for one call and dropped after it are counted like any others"""
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    obs = np.array(num(spec["obs"]), dtype=float)
    bodies = [np.array(num(b), dtype=float) for b in spec["bodies"]]
    rho, Gc = num(spec["density"]), num(spec["Gc"])
    for rounds in (1, 4, 12):  # memory is reused sooner or later
        st = Station(obs.copy())
        G0, T0, nG, nT = np.zeros(3), np.zeros((3, 3)), 0.0, 0.0
        for k in range(rounds):
            for b in bodies:
                G, T = Polyhedron(b * (1 + k / 8)).get_gravity(obs.copy(), rho, Gc, True)
                x, y = _natural(b * (1 + k / 8), obs, rho, Gc)
                G0, T0, nG, nT = G0 + G, T0 + T, nG + x, nT + y
        for k in range(rounds):
            for b in bodies:
                st.compute_gravity(Polyhedron(b * (1 + k / 8)), rho, Gc, True)
        bad = []
        _differ("station gravity", st.G, G0, bad, nat=nG)
        _differ("station gradient", st.T, T0, bad, nat=nT)
        if bad:
            return f"obs={obs.tolist()} {rounds * len(bodies)} bodies, each dropped after its call: " + "; ".join(bad)
    return ""


def bad_body(spec, num):
    """a list with something that is not a Polyhedron is refused and leaves the station as it was"""
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    obs = np.array(num(spec["obs"]), dtype=float)
    good = [Polyhedron(np.array(num(b), dtype=float)) for b in spec["bodies"]]
    st = Station(obs)
    st.compute_gravity(good[0], 1000.0, 6.67408e-11, True)
    G, T = st.G.copy(), st.T.copy()
    lst = list(good)
    junk = {"none": None, "array": np.zeros((4, 3)), "str": "cube", "tuple": (1, 2, 3)}[spec["junk"]]
    lst.insert(spec["at"], junk)
    try:
        st.compute_gravity(lst if spec["list"] else junk, 1000.0, 6.67408e-11, True)
        return f"no error for {junk!r} among the bodies"
    except TypeError:
        pass
    except Exception as e:  # noqa: BLE001
        return f"{e!r} instead of TypeError"
    if not (np.array_equal(G, st.G) and np.array_equal(T, st.T)):
        return f"refused call changed the station: {st.G.tolist()} was {G.tolist()}"
    return ""


def cut(spec, num):
    """attraction of a body equals the sum over its pieces"""
    obs = num(spec["obs"])
    rho, Gc, grad = num(spec["density"]), num(spec["Gc"]), spec["gradient"]
    G, T = _field(num(spec["whole"]), obs, rho, Gc, grad)
    Gs, Ts = np.zeros(3), np.zeros((3, 3))
    for p in spec["pieces"]:
        a, b = _field(num(p), obs, rho, Gc, grad)
        Gs, Ts = Gs + a, Ts + b
    bad = []
    nG, nT = _natural(num(spec["whole"]), obs, rho, Gc)
    _differ("sum of the pieces' gravity", Gs, G, bad, nat=nG)
    _differ("sum of the pieces' gradient", Ts, T, bad, nat=nT)
    return f"obs={obs}: " + "; ".join(bad) if bad else ""


def history(spec, num):
    """every step of a sequence gives what a fresh object gives"""
    fault = spec.get("fault_step")
    if fault is not None:
        import os

        os.environ["NUMBA_DISABLE_JIT"] = "1"
        n = 1
        k = 0
        while k < n and k < 400:
            bad, calls = _history(spec, num, k)
            n = max(n, calls)
            if bad:
                return f"fault at numerical call {k} of step {fault}: {bad}"
            k += 1
        return ""
    return _history(spec, num, None)[0]


class _Count:
    def __init__(self, limit):
        self.n, self.limit, self.on = 0, limit, False

    def wrap(self, f):
        def g(*a, **k):
            if self.on:
                i = self.n
                self.n += 1
                if i == self.limit:
                    raise FloatingPointError("injected fault")
            return f(*a, **k)

        return g


class _Proxy:
    def __init__(self, real, over):
        self._real = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._real, k)


def _history(spec, num, faultk):
    import geec.polyhedron as pm
    from geec.polyhedron import Polyhedron

    cnt = None
    saved = {k: getattr(pm, k) for k in ("np", "log", "acos", "math") if hasattr(pm, k)}
    if faultk is not None:
        cnt = _Count(faultk)
        real = np
        la = _Proxy(real.linalg, {"norm": cnt.wrap(real.linalg.norm)})
        pm.np = _Proxy(real, {"linalg": la, "dot": cnt.wrap(real.dot)})
        for k in ("log", "acos"):
            if k in saved:
                setattr(pm, k, cnt.wrap(saved[k]))
    try:
        return _history2(spec, num, cnt), (cnt.n if cnt else 0)
    finally:
        for k, v in saved.items():
            setattr(pm, k, v)


def _history2(spec, num, cnt):
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    bodies = [np.array(num(b), dtype=float) for b in spec["bodies"]]
    pts = [b.copy() for b in bodies]
    polys = [Polyhedron(p) for p in pts]
    buf = np.zeros(3) if spec["share"] else None

    def field(poly, o, st):
        if spec["via"] == "station":
            s = Station(o)
            s.compute_gravity(poly, num(st["density"]), num(st["Gc"]), st["gradient"])
            return s.G, s.T
        return poly.get_gravity(o, num(st["density"]), num(st["Gc"]), st["gradient"])

    bad, held = [], []
    for k, st in enumerate(spec["steps"]):
        obs = np.array(num(st["obs"]), dtype=float)
        if buf is not None:
            buf[:] = obs
            o = buf
        else:
            o = obs.copy()
        try:
            if cnt is not None and spec["fault_step"] == k:
                cnt.on = True
            try:
                G, T = field(polys[st["body"]], o, st)
            finally:
                if cnt is not None:
                    cnt.on = False
        except Exception as e:  # noqa: BLE001
            if st["may_fail"] or (cnt is not None and spec["fault_step"] == k):
                continue
            bad.append(f"step {k} raised {e!r}")
            break
        if st["may_fail"]:
            continue
        now = np.array(G), np.array(T)
        G0, T0 = field(Polyhedron(bodies[st["body"]].copy()), obs.copy(), st)
        nG, nT = _natural(bodies[st["body"]], obs, num(st["density"]), num(st["Gc"]))
        _differ(f"step {k} gravity", now[0], G0, bad, nat=nG)
        _differ(f"step {k} gradient", now[1], T0, bad, nat=nT)
        if not np.array_equal(o, obs):
            bad.append(f"step {k} moved the observer to {o.tolist()}")
        if spec["mutate"]:
            G[...] = 7.0
            T[...] = 7.0
        else:
            held.append((k, G, T, now))
    for k, G, T, now in held:
        if not (np.array_equal(G, now[0]) and np.array_equal(T, now[1])):
            bad.append(f"result of step {k} changed later: {np.asarray(G).tolist()} {np.asarray(T).tolist()} instead of {now[0].tolist()} {now[1].tolist()}")
    for p, b in zip(pts, bodies):
        if not np.array_equal(p, b):
            bad.append(f"points changed: {p.tolist()}")
    return f"steps={spec['steps']}: " + "; ".join(bad) if bad else ""


def frame(spec, num):
    """the moved body has the moved field at the moved observer"""
    pts, obs = np.array(num(spec["points"])), np.array(num(spec["obs"]))
    pr, kind, grad = num(spec["params"]), spec["kind"], spec["gradient"]
    M, t, lam = np.array(spec["matrix"], dtype=float), np.zeros(3), 1.0
    if kind == "translate":
        t = np.array([pr["tx"], pr["ty"], pr["tz"]])
    elif kind == "scale":
        lam = pr["lam"]
        M = lam * np.eye(3)
    elif kind in ("rot", "rotx", "roty"):
        s = pr["s"]
        lam = 1 + s * s
        M = lam * np.eye(3)
        i, j = {"rot": (0, 1), "rotx": (1, 2), "roty": (2, 0)}[kind]
        M[i, i] = M[j, j] = 1 - s * s
        M[i, j], M[j, i] = -2 * s, 2 * s
    G, T = _field(pts, obs, 1.0, 1.0, grad)
    bad = []
    try:
        G2, T2 = _field(pts @ M.T + t, M @ obs + t, 1.0, 1.0, grad)
    except Exception as e:  # noqa: BLE001
        return f"{kind} {pr}: raised {e!r}"
    nG, nT = _natural(pts @ M.T + t, M @ obs + t, 1.0, 1.0)
    _differ("gravity", G2, M @ G, bad, nat=nG + lam * _natural(pts, obs, 1.0, 1.0)[0])
    _differ("gradient", T2, M @ T @ M.T / lam**2, bad, nat=nT)
    return f"{kind} {spec['matrix']} {pr} obs={obs.tolist()}: " + "; ".join(bad) if bad else ""


def perms(n, k, seed=1):
    """k orders of n points, the given one first"""
    rng = np.random.default_rng(seed)
    yield np.arange(n)
    for _ in range(k):
        yield rng.permutation(n)


def mesh(spec, num):
    """faces, edges and normals of a body; the facet order of the hull follows from the
    order of the points, so other orders are tried as well"""
    pts = np.array(num(spec["points"]), dtype=float)
    for p in perms(len(pts), 40):
        bad = _mesh(pts[p])
        if bad:
            return bad
    return ""


def _mesh(pts):
    from geec.polyhedron import Polyhedron

    try:
        poly = Polyhedron(pts.copy())
    except Exception as e:  # noqa: BLE001
        return f"points={pts.tolist()}: raised {e!r}"
    bad = []
    size = np.ptp(pts, axis=0).max()
    tol = 1e-9
    directed = []
    vol = 0.0
    c = pts.mean(axis=0)

    def idx(p):
        h = [i for i, q in enumerate(pts) if np.array_equal(p, q)]
        return h[0] if len(h) == 1 else None

    for k, f in enumerate(poly.faces):
        fp, un = np.asarray(f.points, dtype=float), np.asarray(f.un, dtype=float)
        ids = [idx(p) for p in fp]
        if None in ids:
            bad.append(f"face {k} corners {fp.tolist()} are not vertices")
        if abs(un @ un - 1) > tol:
            bad.append(f"face {k} normal {un.tolist()} is not a unit vector")
        d = (pts - fp[0]) @ un
        if d.max() > tol * size * 10:
            bad.append(f"face {k} normal {un.tolist()} does not point outward")
        if np.abs((fp - fp[0]) @ un).max() > tol * size * 10:
            bad.append(f"face {k} normal {un.tolist()} is not perpendicular")
        for i in range(1, len(fp) - 1):
            if un @ np.cross(fp[i] - fp[0], fp[i + 1] - fp[0]) <= 0:
                bad.append(f"face {k} corners are not counterclockwise")
            vol += (fp[0] - c) @ np.cross(fp[i] - c, fp[i + 1] - c) / 6
        ring = []
        for j, e in enumerate(f.edges):
            a, b = np.asarray(e.start, dtype=float), np.asarray(e.end, dtype=float)
            ring.append((idx(a), idx(b)))
            if np.abs(np.asarray(e.vector, dtype=float) - (b - a)).max() > tol * size:
                bad.append(f"face {k} edge {j} vector {e.vector}")
            if abs(float(e.length) - np.linalg.norm(b - a)) > tol * size:
                bad.append(f"face {k} edge {j} length {e.length}")
        directed += ring
        if sorted(map(str, ring)) != sorted(str((ids[i], ids[(i + 1) % len(ids)])) for i in range(len(ids))):
            bad.append(f"face {k}: edges {ring} do not run round the corners {ids}")
    if len(set(directed)) != len(directed) or any((b, a) not in directed for a, b in directed):
        bad.append("edges are not paired")
    from scipy.spatial import ConvexHull

    h = ConvexHull(pts)
    if len(poly.faces) != len(h.simplices):
        bad.append(f"{len(poly.faces)} faces instead of {len(h.simplices)}")
    if abs(vol - h.volume) > 1e-9 * h.volume:
        bad.append(f"faces enclose {vol} instead of {h.volume}")
    return f"points={pts.tolist()}: " + "; ".join(bad[:6]) if bad else ""


def flat(spec, num):
    """points that span no volume are refused"""
    from geec.polyhedron import Polyhedron

    pts = np.array(num(spec["points"]), dtype=float).reshape(-1, 3)
    if np.linalg.matrix_rank(pts - pts[0]) > 2:
        return ""
    try:
        poly = Polyhedron(pts.copy())
    except Exception:  # noqa: BLE001
        return ""
    return f"points={pts.tolist()} span no volume but are accepted with {len(poly.faces)} faces"


def listing(spec, num):
    """the same body listed differently has the same field"""
    from geec.polyhedron import Polyhedron

    base = np.array(num(spec["points"]), dtype=float)
    obs, rho, Gc, grad, kind = np.array(num(spec["obs"])), num(spec["density"]), num(spec["Gc"]), spec["gradient"], spec["kind"]
    G, T = _field(base, obs, rho, Gc, grad)
    alts = []
    if kind in ("perm", "facets"):
        alts = [base[spec["perm"]]] + [base[p] for p in perms(len(base), 40)]
    elif kind == "dup":
        l = [base[i] for i in spec["perm"]]
        alts = [np.array(l[:2] + [l[0]] + l[2:] + [l[1]])]
    elif kind == "int":
        alts = [base.astype(spec.get("dtype", "int64"))]
    elif kind == "fortran":
        alts = [np.asfortranarray(base)]
    elif kind == "strided":
        big = np.zeros((2 * len(base), 6))
        big[::2, ::2] = base
        alts = [big[::2, ::2]]
    elif kind == "interior":
        alts = [np.insert(base, i, np.array(num(spec["interior"])), axis=0) for i in range(len(base) + 1)]
    bad = []
    nG, nT = _natural(base, obs, rho, Gc)
    for a in alts:
        try:
            G2, T2 = Polyhedron(a).get_gravity(obs.copy(), rho, Gc, grad)
        except Exception as e:  # noqa: BLE001
            return f"points={a.tolist()} obs={obs.tolist()}: raised {e!r}"
        _differ(f"points={a.tolist()} gravity", G2, G, bad, nat=nG)
        _differ(f"points={a.tolist()} gradient", T2, T, bad, nat=nT)
        if bad:
            break
    return f"{kind} obs={obs.tolist()}: " + "; ".join(bad) if bad else ""


def lon180(spec, num):
    from engine import geo_replay

    return geo_replay.lon180(spec, num)


def height(spec, num):
    from engine import geo_replay

    return geo_replay.height(spec, num)


def transform(spec, num):
    from engine import geo_replay

    return geo_replay.transform(spec, num)


def crs_config(spec, num):
    from . import geo_replay

    return geo_replay.crs_config(spec, num)


def cross(spec, num):
    from geec.utils import cross_product

    def lay(x, shape):
        a = np.array(num(x), dtype=float).reshape(shape)
        if spec["layout"] == "f":
            return np.asfortranarray(a)
        if spec["layout"] == "strided":
            big = np.full(tuple(2 * s for s in shape), 99.0)
            sl = tuple(slice(None, None, 2) for _ in shape)
            big[sl] = a
            return big[sl]
        return a

    A = lay(spec["a"], spec["sa"])
    B = A if spec["b"] is None else lay(spec["b"], spec["sb"])
    if spec.get("ints") == "a":
        A = A.astype(int)
    if spec.get("ints") == "b":
        B = B.astype(int)
    A0, B0 = A.copy(), B.copy()
    tag = f"V1={A0.tolist()} V2={B0.tolist()}: "
    try:
        R = cross_product(A, B)
        if spec["refuse"]:
            return tag + f"accepted, gives {np.asarray(R).tolist()}"
    except TypeError as e:
        if not spec["refuse"]:
            return tag + f"raised {e!r}"
    except Exception as e:  # noqa: BLE001
        return tag + f"raised {e!r}"
    if not (np.array_equal(A, A0) and np.array_equal(B, B0)):
        return tag + f"arguments changed to {A.tolist()} {B.tolist()}"
    if spec["refuse"]:
        return ""
    if A0.ndim == 2 and B0.ndim == 2:
        W = np.array([[np.cross(a, b) for b in B0] for a in A0])
    else:
        W = np.cross(A0, B0)
    R = np.asarray(R, dtype=float)
    if R.shape != W.shape or not np.allclose(R, W, rtol=1e-9, atol=1e-12 * max(1.0, np.abs(A0).max() * np.abs(B0).max())):
        return tag + f"{R.tolist()} instead of {W.tolist()}"
    return ""


def reading(spec, num):
    from . import read_replay

    return read_replay.reading(spec, num)


def reading_masses(spec, num):
    from . import read_replay

    return read_replay.reading_masses(spec, num)


def cli_table(spec, num):
    from . import cli_replay

    return cli_replay.table(spec, num)


def config_layers(spec, num):
    from . import layer_replay

    return layer_replay.config_layers(spec, num)

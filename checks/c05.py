"""C05: a result depends on its own arguments only (histories, failures, purity)."""
from fractions import Fraction

import numpy as np

from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import grav as g
from . import newton as n
from . import rel

META = {
    "explanation": "Sequences of computations on the same objects are executed symbolically (observers, density and G symbolic, gradient flag and body chosen per step, steps that fail, a fault injected at a symbolic point) and every result is compared, as an exact expression on every path, with that of a fresh object.",
    "level": "other",
    "assumptions": ["real arithmetic", "bounded number of steps", "faults are exceptions raised by the numerical calls (dot, norm, log, acos)"],
}


class Fault(FloatingPointError):
    pass


def names_for(steps):
    out = []
    for k, st in enumerate(steps):
        if st.get("near"):
            out += ["ex", "ey", "ez"]
            continue
        if st.get("at") is None:
            out += [f"o{k}{c}" for c in "xyz"]
        out += [f"rho{k}", f"Gc{k}"]
    return out


def history(rep, bodies=("tet",), steps=(), share=False, via="poly", fault_step=None, fault_max=400, mutate=False, free=False, skip=()):
    """steps: dicts body, grad, at (vertex index: the computation fails there)"""
    P = loader.load("geec.polyhedron")
    St = loader.load("geec.station")
    shims.HULL["stub"] = None
    shims.FAULT["skip"] = skip
    steps = [dict(s) for s in steps]
    names = names_for(steps) + (["k"] if fault_step is not None else [])
    P0 = [n.BODIES[b] for b in bodies]

    def obs_of(k, st):
        if st.get("at") is not None:
            return g.arr([S.lift(x) for x in P0[st.get("body", 0)][st["at"]]])
        if st.get("near"):  # next to the observer of the step before
            d = g.vec("e")
            for x in d:
                explore.assume(x > 0)
                explore.assume(x < Fraction(1, 2**13))
            o = g.arr(list(g.vec(f"o{k - 1}") + d))
            rel.general(P0[st.get("body", 0)], o)
            return o
        o = g.vec(f"o{k}")
        if not free:
            rel.box(o, k)
        for p in {st.get("body", 0)}:
            rel.general(P0[p], o)
        return o

    def field(poly, o, rho, Gc, grad, buf=None):
        if buf is not None:
            buf[:] = o
            a = buf
        else:
            a = o.copy()
        if via == "station":
            s = St.Station(a)
            s.compute_gravity(poly, rho, Gc, grad)
            return s.G, s.T, a
        G, T = poly.get_gravity(a, rho, Gc, grad)
        return G, T, a

    def run():
        out, held = [], []
        pts = [rel.const_pts(p) for p in P0]
        keep = [p.copy() for p in pts]
        polys = [P.Polyhedron(p) for p in pts]
        buf = g.arr([S.lift(0)] * 3) if share else None
        kf = S.var("k") if fault_step is not None else None
        for k, st in enumerate(steps):
            o = obs_of(k, st)
            m = k - 1 if st.get("near") else k
            rho, Gc = S.var(f"rho{m}"), S.var(f"Gc{m}")
            b, grad = st.get("body", 0), st.get("grad", False)
            cnt = [0]

            def hook():
                i = cnt[0]
                cnt[0] += 1
                if i > fault_max:
                    return
                # the fault strikes at the k-th numerical call
                if bool(kf < i + 1):
                    raise Fault()

            if fault_step == k:
                shims.FAULT["hook"] = hook
            try:
                try:
                    G, T, a = field(polys[b], o, rho, Gc, grad, buf)
                finally:
                    shims.FAULT["hook"] = None
            except Fault:
                continue
            except Exception:
                if st.get("at") is not None:
                    continue
                raise
            if st.get("at") is not None:
                continue  # nothing is said about the value there
            now = [np.array(x, dtype=object, copy=True) for x in (G, T)]
            G0, T0, _ = field(P.Polyhedron(rel.const_pts(P0[b])), o, rho, Gc, grad)
            ref = [np.array(x, dtype=object, copy=True) for x in (G0, T0)]
            out += rel.pairs(f"step{k} G", now[0], ref[0]) + rel.pairs(f"step{k} T", now[1], ref[1])
            out += rel.pairs(f"step{k} observer", a, o)
            if not mutate:
                held.append((k, G, T, now))
            if mutate:  # results belong to the caller
                for x in (G, T):
                    try:
                        x[...] = 7.0
                    except ValueError:
                        pass
        for k, G, T, now in held:  # later computations leave earlier results alone
            out += rel.pairs(f"step{k} G kept", G, now[0]) + rel.pairs(f"step{k} T kept", T, now[1])
        for b, p in enumerate(pts):
            out += rel.pairs(f"points{b}", p, keep[b])
        return out

    def build(env):
        ss = []
        for k, st in enumerate(steps):
            b = st.get("body", 0)
            m = k - 1 if st.get("near") else k
            o = list(P0[b][st["at"]]) if st.get("at") is not None else [env[f"o{m}{c}"] for c in "xyz"]
            if st.get("near"):
                o = [Fraction(x) + Fraction(env[f"e{c}"]) for x, c in zip(o, "xyz")]
            ss.append({"body": b, "obs": o, "density": env[f"rho{m}"], "Gc": env[f"Gc{m}"], "gradient": st.get("grad", False), "may_fail": st.get("at") is not None})
        return {"scenario": "history", "bodies": [[list(x) for x in p] for p in P0], "steps": ss, "share": share, "via": via, "fault_step": fault_step, "mutate": mutate}

    ranges = {}
    for k in range(len(steps)):
        if not free:
            ranges.update(rel.box_ranges([f"o{k}{c}" for c in "xyz"], k))
    for c in "xyz":
        ranges["e" + c] = lambda r: r.randint(1, 2**11 - 1) / 2 ** (24 + 3 * (r.random() < 0.5))
    if fault_step is not None:
        ranges["k"] = (0, 160)
    rel.drive(rep, run, names, build, "result of a step equals that of a fresh object", ranges, max_paths=1500, n_pool=8192 if fault_step is not None else 1024)


def D(**k):
    return dict(k)


T2 = "2 observers, densities, G symbolic; "
CASES = [
    Case("flags-ft", history, T2 + "gravity then gradient", budget=300, steps=(D(grad=False), D(grad=True))),
    Case("flags-tf", history, T2 + "gradient then gravity", budget=300, steps=(D(grad=True), D(grad=False))),
    Case("repeat-tt", history, T2 + "gradient twice, results overwritten by the caller", budget=300, steps=(D(grad=True), D(grad=True)), mutate=True),
    Case("shared-buffer", history, "3 steps through one observer array", budget=300, bodies=("pyramid",), steps=(D(), D(), D()), share=True, mutate=True),
    Case("two-bodies", history, "4 steps, two bodies interleaved", budget=300, bodies=("tet", "pyramid"), steps=(D(), D(body=1), D(), D(body=1))),
    Case("station", history, T2 + "stations sharing a body", budget=300, steps=(D(), D(grad=True)), via="station"),
    Case("nearby", history, T2 + "the second observer within 1e-4 of the first, same density and G", budget=300, steps=(D(), D(near=True))),
    Case("nearby-T", history, "as nearby, with gradient", budget=300, bodies=("pyramid",), steps=(D(grad=True), D(near=True, grad=True))),
    Case("fine", history, T2 + "coordinates with many digits", budget=300, bodies=("tet-fine",), steps=(D(), D())),
    Case("anywhere", history, T2 + "observers anywhere", budget=300, steps=(D(), D()), free=True, tiers=("thorough",)),
] + [
    Case(f"fail-{i}", history, f"computation at vertex {i} fails, then gravity and gradient", budget=300, steps=(D(at=i, grad=i % 2 == 0), D(grad=True)))
    for i in range(4)
] + [
    Case("fail-cube", history, "computations at two vertices of a cube fail, then gravity", budget=300, bodies=("cube",), steps=(D(at=5), D(), D(at=1), D())),
    Case("fault", history, "fault at the k-th call of norm, log or acos (k symbolic), then gravity", budget=300, steps=(D(), D()), fault_step=0, skip=("dot",)),
    Case("fault-all", history, "fault at the k-th numerical call (k symbolic, every call), then gravity", budget=900, steps=(D(), D()), fault_step=0, tiers=("thorough",)),
    Case("fault-T", history, "fault at the k-th numerical call of a gradient computation, then gradient", budget=1500, steps=(D(grad=True), D(grad=True)), fault_step=0, tiers=("thorough",)),
]

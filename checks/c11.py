"""C11: coordinate transformations keep the position and keep the CRS in step."""
import itertools

from engine import explore, geo, loader, shims, sym as S
from engine.harness import Case
from . import coord as co
from . import grav as g
from . import rel

META = {
    "explanation": "Sequences of to_ecef / to_wgs84 / to_enu are executed on datasets with symbolic coordinates, ENU origin and ellipsoid axes.  After every step the position that the dataset's own CRS gives to its coordinates is compared with the original one; pymap3d's conversions are uninterpreted functions with their inverse laws.",
    "level": "other",
    "assumptions": ["pymap3d conversions obey their inverse laws (engine/geo.py); pymap3d itself is not encoded", "real arithmetic", "bounded number of points and steps"],
}

W84 = None


def position(m, d):
    """ECEF positions of a dataset, from its coordinates and its CRS"""
    c = d.crs
    k = str(c.name)
    out = []
    for p in d.coords:
        x, y, z = (S.lift(v) for v in p)
        if k == "ellps":
            a, b = S.lift(c.ellps.semimajor_axis), S.lift(c.ellps.semiminor_axis)
            out.append(geo.g2e(y, x, z, a, b))
        elif k == "enu":
            e = c.enu
            a, b = S.lift(e.ellps.semimajor_axis), S.lift(e.ellps.semiminor_axis)
            out.append(geo.n2e(x, y, z, S.lift(e.latitude_origin), S.lift(e.longitude_origin), S.lift(e.altitude_origin), a, b))
        else:
            out.append((x, y, z))
    return out


def sequence(rep, kind="ellps", ell="wgs84", length=2, npts=2, via="dataset", ops=("to_ecef", "to_wgs84", "to_enu"), vdatum="ellps"):
    m = co.load()
    w = m.crs.Ellipsoid(name="wgs84")
    names = co.coord_names(npts) + co.crs_names(kind, ell, via) + ["lon1", "lat1", "h1"]
    for seq in itertools.product(ops, repeat=length):
        def run(seq=seq):
            c = co.coords(npts)
            org = [S.var(x) for x in ("lon1", "lat1", "h1")]
            ds = m.dataset.Dataset(coords=c.copy(), crs=co.make_crs(m, kind, ell, vdatum))
            call, get = co.wrap(m, via, ds)
            p0 = position(m, get())
            out = []
            for i, op in enumerate(seq):
                d = get()
                before, s0 = d.coords.copy(), co.crs_state(m, d.crs)
                k0 = str(d.crs.name)
                call(op, *(org if op == "to_enu" else ()))
                d = get()
                t = f"step {i} {op}: "
                k = str(d.crs.name)
                out.append((tuple(d.coords.shape) == (npts, 3), t + "shape"))
                if k0 == "cart" or (k0 == "enu" and op == "to_enu") or (k0 == "ecef" and op == "to_ecef"):
                    out += [(x, y, t + "untouched") for x, y in zip(d.coords.ravel(), before.ravel())]
                    out += [(*r[:-1], t + r[-1]) for r in co.state_pairs(co.crs_state(m, d.crs), s0)]
                    continue
                want = {"to_ecef": "ecef", "to_wgs84": "ellps", "to_enu": "enu"}[op]
                out.append((k == want, t + f"CRS name {k}"))
                if k != want:
                    return out
                if k == "ellps":
                    out.append((d.crs.ellps is not None, t + "ellipsoid set"))
                    out.append((d.crs.enu is None, t + "no ENU origin left"))
                    if d.crs.ellps is None:
                        return out
                    out.append((d.crs.ellps.semimajor_axis, w.semimajor_axis, t + "WGS84 semi-major axis"))
                    out.append((d.crs.ellps.semiminor_axis, w.semiminor_axis, t + "WGS84 semi-minor axis"))
                if k == "enu":
                    out.append((d.crs.enu is not None and d.crs.ellps is not None, t + "ENU origin and ellipsoid set"))
                    if d.crs.enu is None or d.crs.ellps is None:
                        return out
                    e = d.crs.enu
                    out += [(x, y, t + "origin") for x, y in zip((e.longitude_origin, e.latitude_origin, e.altitude_origin), org)]
                    out.append((d.crs.ellps.semimajor_axis, e.ellps.semimajor_axis, t + "ellipsoid of the origin"))
                    out.append((d.crs.ellps.semiminor_axis, e.ellps.semiminor_axis, t + "ellipsoid of the origin"))
                out.append((str(d.crs.vdatum) == s0[3], t + "vertical datum"))
                for j, (p, q) in enumerate(zip(position(m, d), p0)):
                    out += [(a, b, t + f"position of point {j}") for a, b in zip(p, q)]
            return out

        def build(env, seq=seq):
            return {"scenario": "transform", "seq": list(seq), "to": [env["lon1"], env["lat1"], env["h1"]], "ds": co.build_ds(env, kind, npts, ell, vdatum, via)}

        rel.drive(rep, run, names, build, f"{'/'.join(seq)} on {kind} ({ell})", co.coord_ranges(kind, npts))


B = "2 points (6 reals), every sequence of 2 conversions"
CASES = []
for k, e in (("ellps", "wgs84"), ("ellps", "grs80"), ("ellps", "sym"), ("enu", "wgs84"), ("enu", "sym"), ("ecef", "wgs84"), ("cart", "wgs84")):
    CASES.append(Case(f"{k}-{e}", sequence, B + f"; start in {k}, ellipsoid {e}", budget=200, kind=k, ell=e))
    CASES.append(Case(f"{k}-{e}-3", sequence, f"2 points, every sequence of 3 conversions; start in {k}, ellipsoid {e}", budget=300, kind=k, ell=e, length=3))
for v in ("mass", "masses", "observer"):
    for k in ("ellps", "enu", "ecef"):
        CASES.append(Case(f"{k}-{v}", sequence, f"1 point, every single conversion; start in {k}, through {v}", budget=200, kind=k, ell="sym", length=1, npts=1, via=v, vdatum="ellps" if k == "ecef" else "egm96"))
for k in ("ellps", "enu", "ecef"):
    for n in (1, 3):
        CASES.append(Case(f"{k}-n{n}", sequence, f"{n} points, every sequence of 2 conversions; start in {k}", budget=200, kind=k, ell="sym", npts=n, vdatum="ellps" if k == "ecef" else "egm84"))
    for v in ("mass", "observer", "masses-first", "masses-last", "masses-mid"):
        CASES.append(Case(f"{k}-{v}-2", sequence, f"2 points, every sequence of 2 conversions; start in {k}, through {v}", budget=200, kind=k, via=v))
CASES.append(Case("ellps-sym-4", sequence, "1 point, every sequence of 4 conversions", budget=1500, kind="ellps", ell="sym", length=4, npts=1, tiers=("thorough",)))
CASES.append(Case("enu-sym-4", sequence, "1 point, every sequence of 4 conversions", budget=1500, kind="enu", ell="sym", length=4, npts=1, tiers=("thorough",)))

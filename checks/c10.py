"""C10: heights above a geoid become heights above the ellipsoid, once."""
from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import coord as co
from . import grav as g
from . import rel

META = {
    "explanation": "to_ellipsoid_height is executed on datasets with symbolic coordinates for every vertical datum and coordinate system; the geoid of each grid file is an uninterpreted function of latitude and longitude.",
    "level": "other",
    "assumptions": ["the geoid is an arbitrary function of (latitude, longitude) per grid file (pygeodesy is not encoded)", "real arithmetic"],
}


def height(rep, kind="ellps", npts=3, via="dataset", ell="wgs84", vdatums=tuple(co.VD), times=1, before=None):
    m = co.load()
    names = co.coord_names(npts) + co.crs_names(kind, ell, via)
    for vd in vdatums:
        def run(vd=vd):
            c = co.coords(npts)
            if before == "to_lon180":
                for i in range(npts):
                    explore.assume(c[i][0] >= -180)
                    explore.assume(c[i][0] <= 360)
            crs = co.make_crs(m, kind, ell, vd)
            ds = m.dataset.Dataset(coords=c.copy(), crs=crs)
            call, get = co.wrap(m, via, ds)
            if before:
                call(before)
            c0 = get().coords.copy()
            s0 = co.crs_state(m, get().crs)
            for _ in range(times):
                call("to_ellipsoid_height")
            d = get()
            out = [(tuple(d.coords.shape) == (npts, 3), "shape")]
            for i in range(npts):
                for j in (0, 1):
                    out.append((d.coords[i][j], c0[i][j], f"point {i}: coordinate {j}"))
                h = S.lift(c0[i][2])
                if kind == "ellps" and co.VD[vd]:
                    h = h + S.uf("geoid_" + co.VD[vd], S.lift(c0[i][1]), S.lift(c0[i][0]))
                out.append((d.coords[i][2], h, f"point {i}: height"))
            s = co.crs_state(m, d.crs)
            if kind == "ellps":
                s0 = s0[:3] + ("ellps",)
                return out + co.state_pairs(s, s0)
            return out + co.state_pairs(s, s0, vdatum=False)

        def build(env, vd=vd):
            return {"scenario": "height", "times": times, "before": before, "ds": co.build_ds(env, kind, npts, ell, vd, via)}

        rel.drive(rep, run, names, build, f"to_ellipsoid_height on {kind}, {vd}", co.coord_ranges(kind, npts))


V = ("dataset", "mass", "masses", "observer")
B = "3 points (9 reals), four vertical datums"
MV = ("masses-first", "masses-last", "masses-mid")
CASES = [Case(f"ellps-{v}", height, B, budget=120, via=v) for v in V]
CASES += [
    Case("ellps-twice", height, B + ", applied twice", budget=120, times=2),
    Case("ellps-sym", height, B + ", symbolic ellipsoid", budget=120, ell="sym"),
    Case("after-lon180", height, "2 points, after to_lon180", budget=120, npts=2, before="to_lon180"),
    Case("after-wgs84", height, "2 points of a GRS80 dataset, after to_wgs84", budget=120, npts=2, ell="grs80", before="to_wgs84"),
]
CASES += [Case(f"ellps-one-{v}", height, "1 point, applied twice", budget=120, npts=1, times=2, via=v) for v in V]
CASES += [Case(f"ellps-{v}", height, "2 points, applied twice, a list of masses", budget=120, npts=2, times=2, via=v) for v in MV]
CASES += [Case(f"ellps-{n}", height, f"{n} points, applied twice", budget=120, npts=n, times=2) for n in (2, 4, 6)]
CASES += [Case(f"{k}-{v}", height, f"3 points in {k}: untouched", budget=120, kind=k, via=v, vdatums=("ellps", "egm96", "egm2008") if k == "enu" else ("ellps",)) for k in ("enu", "ecef", "cart") for v in ("dataset", "masses", "observer")]
CASES += [Case(f"{k}-one", height, f"1 point in {k}: untouched", budget=120, kind=k, npts=1, times=2, vdatums=("ellps", "egm84") if k == "enu" else ("ellps",)) for k in ("enu", "ecef", "cart")]
CASES += [Case("ellps-12", height, "12 points, three times", budget=600, npts=12, times=3, tiers=("thorough",))]

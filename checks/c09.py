"""C09: longitudes are brought to -180..180."""
from engine import explore, loader, shims, sym as S
from engine.harness import Case
from . import coord as co
from . import grav as g
from . import rel

META = {
    "explanation": "to_lon180 is executed on datasets with symbolic coordinates in every coordinate system, through Dataset, Mass, Observer and the module functions; range, congruence modulo 360 and the invariance of everything else are asserted on every path.",
    "level": "other",
    "assumptions": ["longitudes given in -180..360", "real arithmetic"],
}


def lon180(rep, kind="ellps", npts=3, via="dataset", ell="wgs84", vdatum="ellps", twice=False):
    m = co.load()
    names = co.coord_names(npts) + co.crs_names(kind, ell, via)

    def run():
        c = co.coords(npts)
        if kind == "ellps":
            for i in range(npts):
                explore.assume(c[i][0] >= -180)
                explore.assume(c[i][0] <= 360)
        crs = co.make_crs(m, kind, ell, vdatum)
        s0 = co.crs_state(m, crs)
        ds = m.dataset.Dataset(coords=c.copy(), crs=crs)
        call, get = co.wrap(m, via, ds)
        call("to_lon180")
        if twice:
            call("to_lon180")
        d = get()
        out = [(tuple(d.coords.shape) == (npts, 3), "shape")]
        for i in range(npts):
            x, y = S.lift(c[i][0]), S.lift(d.coords[i][0])
            if kind == "ellps":
                out.append((y >= -180, f"point {i}: longitude >= -180"))
                out.append((y <= 180, f"point {i}: longitude <= 180"))
                k = y - x
                out.append((S.s_or(k == 0, k == -360, k == 360), f"point {i}: same longitude modulo 360"))
            else:
                out.append((y, x, f"point {i}: first coordinate"))
            for j in (1, 2):
                out.append((d.coords[i][j], c[i][j], f"point {i}: coordinate {j}"))
        return out + co.state_pairs(co.crs_state(m, d.crs), s0)

    def build(env):
        return {"scenario": "lon180", "twice": twice, "ds": co.build_ds(env, kind, npts, ell, vdatum, via)}

    rel.drive(rep, run, names, build, f"to_lon180 on {kind}", co.coord_ranges(kind, npts, lon=(-180, 360)))


V = ("dataset", "mass", "masses", "observer")
MV = ("masses-first", "masses-last", "masses-mid")
CASES = [Case(f"ellps-{v}", lon180, "3 points (9 reals, longitudes in -180..360)", budget=120, via=v) for v in V]
CASES += [Case("ellps-twice", lon180, "2 points, applied twice", budget=120, npts=2, twice=True), Case("ellps-one", lon180, "1 point, other vertical datum, symbolic ellipsoid", budget=120, npts=1, ell="sym", vdatum="egm96")]
CASES += [Case(f"ellps-one-{v}", lon180, "1 point, applied twice", budget=120, npts=1, via=v, twice=True) for v in V]
CASES += [Case(f"ellps-{v}", lon180, "2 points, a list of masses", budget=120, npts=2, via=v) for v in MV]
CASES += [Case(f"ellps-{n}", lon180, f"{n} points", budget=300, npts=n) for n in (4, 6)]
CASES += [Case(f"{k}-{v}", lon180, f"3 points (9 reals) in {k}: untouched", budget=120, kind=k, via=v) for k in ("enu", "ecef", "cart") for v in ("dataset", "masses", "observer")]
CASES += [Case(f"{k}-one", lon180, f"1 point in {k}: untouched", budget=120, kind=k, npts=1, twice=True) for k in ("enu", "ecef", "cart")]
CASES += [Case("ellps-8", lon180, "8 points", budget=1500, npts=8, tiers=("thorough",))]

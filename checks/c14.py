"""C14: the table written by the run command gives the total field at each station."""
import os
import shutil
import tempfile

import numpy as np

from engine import clirun, confsym, explore, geo, loader, shims, sym as S
from engine.harness import Case
from . import coord as co
from . import grav as g
from . import rel

META = {
    "explanation": "cli.run is executed on a real configuration file whose numbers stand for symbols; bodies have an arbitrary field (uninterpreted function of their points, the station, density and constant), coordinate conversions are functions with their inverse laws; the table that is written is read back and compared cell by cell with the sum over the masses.",
    "level": "other",
    "assumptions": ["field of one body: arbitrary function (C01, C02 decide which)", "contracts of pymap3d (inverse laws) and of the geoid grids (arbitrary functions of latitude and longitude)", "YAML parser, confuse, pandas' CSV writer executed as they are", "longitudes in -180..360, not exactly 180", "masses and stations all Cartesian or all on Earth"],
}

AXES = "xyz"
CRS0 = {"ref": "cart", "name": None, "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": None, "latitude_origin": None, "altitude_origin": None, "vdatum": None}
GEO = {"egm84": "egm84-15", "egm96": "egm96-5", "egm2008": "egm2008-2_5"}
HEAD = {"cart": (["x_mes", "y_mes", "z_mes"], ["(m)"] * 3), "geo": (["lon_mes", "lat_mes", "alt_mes"], ["(degree_east)", "(degree_north)", "(m)"])}
FIELD = (["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"], ["(mGal)"] * 3 + ["(E)"] * 6)


def section(d, tag, val):
    """d: {"kind", "ell": None | name | "sym", "vd"}"""
    s = dict(CRS0, ref=d["kind"], vdatum=d.get("vd"))
    ell = d.get("ell")
    if ell == "sym":
        s.update(semimajor_axis=val(tag + "ea"), semiminor_axis=val(tag + "eb"))
    elif ell:
        s["name"] = ell
    if d["kind"] == "enu":
        s.update(longitude_origin=val(tag + "lon0"), latitude_origin=val(tag + "lat0"), altitude_origin=val(tag + "h0"))
    return s


def points(d, tag, val):
    return [[val(f"{tag}p{at(d, i)}{c}") for c in AXES] for i in range(d["n"])]


def tags(masses):
    return [(d, d.get("tag", f"m{k}")) for k, d in enumerate(masses)]


def at(d, i):
    """the point that point i repeats"""
    return d.get("same", {}).get(i, i)


def config(masses, obs, val, tmp=None):
    ms = []
    for k, d in enumerate(masses):
        t = d.get("tag", f"m{k}")
        pts = points(d, t, val)
        e = {"points": pts, "file_path": None, "density": val(t + "rho"), "gravity_constant": val(t + "Gc"), "crs": section(d, t, val)}
        if d.get("file") and tmp:
            path = os.path.join(tmp, f"mass{k}.csv")
            with open(path, "w") as f:
                f.writelines(",".join(repr(clirun.tokens(x)) for x in r) + "\n" for r in pts)
            e.update(points=None, file_path=path)
        ms.append(e)
    o = {"points": points(obs, "o", val), "file_path": None, "grid": {f"{c}start_{c}end_{c}step": [0.0, 2.0, 1.0] for c in AXES}, "crs": section(obs, "o", val)}
    return {"masses": ms, "observers": o}


def names_of(masses, obs):
    out = []
    for d, tag in tags(masses) + [(obs, "o")]:
        out += [f"{tag}p{i}{c}" for i in range(d["n"]) for c in AXES]
        out += [tag + "rho", tag + "Gc"] if tag != "o" else []
        out += [tag + x for x in ("lon0", "lat0", "h0")] if d["kind"] == "enu" else []
        out += [tag + x for x in ("ea", "eb")] if d.get("ell") == "sym" else []
    return out


def ranges_of(masses, obs):
    r = {}
    for d, tag in tags(masses) + [(obs, "o")]:
        up = tag == "o"
        for i in range(d["n"]):
            for j, c in enumerate(AXES):
                nm = f"{tag}p{i}{c}"
                if d["kind"] == "ellps":
                    east = (d.get("wrap", "") + "." * 9)[i] != "w"
                    r[nm] = [(0, 2) if east else (358, 360), (40, 42), (60000, 90000) if up else (0, 30000)][j]
                elif d["kind"] == "enu":
                    r[nm] = [(-4000, 4000), (-4000, 4000), (5000, 9000) if up else (-3000, 0)][j]
                elif d["kind"] == "ecef":
                    r[nm] = [(4800000, 4820000), (80000, 100000), (4180000, 4200000)][j] if up else [(4700000, 4720000), (80000, 100000), (4100000, 4120000)][j]
                else:
                    r[nm] = [(-40, 40), (-40, 40), (50, 90) if up else (-40, 0)][j]
        r[tag + "rho"], r[tag + "Gc"] = (500, 3000), (1, 4)
        r.update({tag + "lon0": (0, 2), tag + "lat0": (40, 42), tag + "h0": (0, 500), tag + "ea": (6378000, 6379000), tag + "eb": (6356000, 6357000)})
    return r


def var(nm):
    return S.var(nm, positive=nm[-2:] in ("ea", "eb"))


def axes(m, d, tag):
    mod = m.crs.Ellipsoid.models
    if d.get("ell") == "sym":
        return var(tag + "ea"), var(tag + "eb")
    e = mod[d.get("ell") or "wgs84"]
    return S.lift(e["a"]), S.lift(e["b"])


def place(m, d, tag):
    """(ECEF or Cartesian positions, WGS84 or Cartesian coordinates) of the points"""
    out, geod = [], []
    w = m.crs.Ellipsoid.models["wgs84"]
    wa, wb = S.lift(w["a"]), S.lift(w["b"])
    a, b = axes(m, d, tag)
    for i in range(d["n"]):
        x, y, z = (var(f"{tag}p{at(d, i)}{c}") for c in AXES)
        if d["kind"] in ("cart", "ecef"):
            p = (x, y, z)
        elif d["kind"] == "enu":
            p = geo.n2e(x, y, z, var(tag + "lat0"), var(tag + "lon0"), var(tag + "h0"), a, b)
        else:
            if (d.get("wrap", "") + "." * 9)[i] == "w":
                x = x - 360
            f = GEO.get(d.get("vd"))
            h = z + S.uf("geoid_" + f, y, x) if f else z
            p = geo.g2e(y, x, h, a, b)
        out.append(p)
        if d["kind"] == "cart":
            geod.append(p)
        else:
            lat, lon, alt = geo.e2g(*p, wa, wb)
            geod.append((lon, lat, alt))
    return out, geod


def assume(masses, obs):
    for d, tag in tags(masses) + [(obs, "o")]:
        if d.get("ell") == "sym":
            explore.assume(var(tag + "ea") > var(tag + "eb"))
        if d["kind"] != "ellps":
            continue
        for i in range(d["n"]):
            x = var(f"{tag}p{i}x")
            if (d.get("wrap", "") + "." * 9)[i] == "w":
                explore.assume(x > 180)
                explore.assume(x < 360)
            else:
                explore.assume(x > -180)
                explore.assume(x < 180)


def table(rep, masses=(), obs=None, gradient=True, out="table.csv", via="function"):
    loader.EXTRA["pandas"] = confsym.pandas()
    confsym.install()
    m = co.load()
    clirun.install()
    clirun.numeric()
    P = loader.load("geec.polyhedron")
    clirun.fake_fields(P)
    cli = loader.load("geec.cli")
    names = names_of(masses, obs)
    tmp = tempfile.mkdtemp(prefix="geec_c14_")
    clirun.scratch_env(tmp)
    cart = obs["kind"] == "cart"

    def run():
        confsym.TOKENS.clear()
        clirun.OUT.clear()
        geo.G2E.clear()
        geo.ENU.clear()
        assume(masses, obs)
        cfg = os.path.join(tmp, "user.yaml")
        with open(cfg, "w") as f:
            f.write(clirun.yaml_text(clirun.tokens(config(masses, obs, var, tmp))))
        path = os.path.join(tmp, "res", out)
        shutil.rmtree(os.path.join(tmp, "res"), ignore_errors=True)
        if via == "function":
            cli.run(path, cfg, gradient)
        else:
            from typer.testing import CliRunner

            cli.geec.api.setup_logger = lambda: None
            r = CliRunner().invoke(cli.app, ["run", path, "--config", cfg] + (["--gradient"] if gradient else []), catch_exceptions=False)
            if r.exit_code:
                raise AssertionError(f"exit code {r.exit_code}: {r.output[-200:]}")
        files = sorted(os.listdir(os.path.join(tmp, "res"))) if os.path.isdir(os.path.join(tmp, "res")) else []
        want = os.path.splitext(os.path.basename(out))[0] + ".csv"
        facts = [(os.path.isfile(os.path.join(tmp, "res", os.path.dirname(out), want)), f"table written ({files})")]
        if not facts[0][0]:
            return facts
        nm, un, rows = clirun.read_table(os.path.join(tmp, "res", os.path.dirname(out), want))
        hn, hu = HEAD["cart" if cart else "geo"]
        facts.append((nm == hn + FIELD[0], f"column names {nm}"))
        facts.append((un == hu + FIELD[1], f"column units {un}"))
        facts.append((len(rows) == obs["n"], f"{len(rows)} rows for {obs['n']} stations"))
        body = [(place(m, d, t)[0], var(t + "rho"), var(t + "Gc")) for d, t in tags(masses)]
        st, geod = place(m, obs, "o")
        for i, row in enumerate(rows[: obs["n"]]):
            G, T = 0, 0
            for pts, rho, Gc in body:
                x, y = clirun.field(pts, st[i], rho, Gc, gradient)
                G, T = G + x, T + y
            ref = list(geod[i]) + list(G) + [T[0, 0], T[0, 1], T[0, 2], T[1, 1], T[1, 2], T[2, 2]]
            facts.append((len(row) == len(ref), f"row {i}: {len(row)} cells"))
            facts += [(a, b, f"row {i} {c}") for a, b, c in zip(row, ref, hn + FIELD[0])]
        return facts

    def build(env):
        return {"scenario": "cli_table", "config": config(masses, obs, lambda nm: env[nm]), "files": [bool(d.get("file")) for d in masses], "gradient": gradient, "out": out, "via": via, "cart": cart}

    try:
        rel.drive(rep, run, names, build, f"table for masses {[d['kind'] for d in masses]} at {obs['n']} {obs['kind']} stations", ranges_of(masses, obs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def M(kind, n=4, **k):
    return dict(kind=kind, n=n, **k)


ANY = "coordinates, densities, constants, axes and origins any real; "
CASES = [
    Case("cart", table, ANY + "2 Cartesian masses, 3 stations, gradient", budget=200, masses=(M("cart"), M("cart", 5)), obs=M("cart", 3)),
    Case("cart-plain", table, ANY + "3 Cartesian masses, 2 stations, without gradient, output without suffix in a new directory", budget=200, masses=(M("cart"), M("cart"), M("cart", 5)), obs=M("cart", 2), gradient=False, out="sub/dir/table"),
    Case("ellps", table, ANY + "2 masses and 3 stations in ellipsoidal coordinates with geoid heights, longitudes on both sides of 180", budget=300, masses=(M("ellps", vd="egm96", wrap="ww.w"), M("ellps", 5, ell="sym", vd="egm84", wrap=".w...")), obs=M("ellps", 3, wrap=".w.", vd="egm2008")),
    Case("ellps-ell", table, ANY + "stations on another ellipsoid, masses on a third", budget=300, masses=(M("ellps", ell="grs80"),), obs=M("ellps", 2, ell="sym", vd="egm96")),
    Case("enu", table, ANY + "masses in two ENU frames, stations ellipsoidal", budget=300, masses=(M("enu"), M("enu", ell="airy")), obs=M("ellps", 2, ell="airy")),
    Case("enu-obs", table, ANY + "stations in an ENU frame, one ellipsoidal and one ECEF mass", budget=300, masses=(M("ellps", vd="egm96"), M("ecef")), obs=M("enu", 3)),
    Case("ecef", table, ANY + "stations and one mass ECEF, one mass ENU", budget=300, masses=(M("ecef"), M("enu", 5, ell="sym")), obs=M("ecef", 2), gradient=False),
    Case("one", table, ANY + "1 mass from a file, 1 station", budget=200, masses=(M("cart", file=True),), obs=M("cart", 1)),
    Case("mixed", table, ANY + "4 masses in different systems, one from a file; 2 stations", budget=300, masses=(M("ellps", vd="egm84"), M("ecef", 5, file=True), M("enu"), M("ellps", wrap="wwww")), obs=M("ellps", 2, wrap="w.", vd="egm84")),
    Case("twice", table, ANY + "a mass given twice, a station given three times", budget=200, masses=(M("cart"), M("cart", tag="m0")), obs=M("cart", 4, same={1: 0, 3: 0})),
    Case("twice-ellps", table, ANY + "a station given twice, on Earth", budget=200, masses=(M("ellps"),), obs=M("ellps", 3, same={2: 1}, vd="egm96")),
    Case("command", table, ANY + "through the command line: 2 masses, 2 stations, --gradient", budget=200, masses=(M("cart"), M("cart")), obs=M("cart", 2), via="command"),
    Case("command-plain", table, ANY + "through the command line without --gradient", budget=200, masses=(M("ecef"),), obs=M("ecef", 2), via="command", gradient=False),
    Case("many", table, ANY + "6 masses, 5 stations", budget=1500, masses=tuple(M(k, 4 + i % 3) for i, k in enumerate(("ellps", "enu", "ecef", "ellps", "enu", "ecef"))), obs=M("ellps", 5, wrap="w.w.w", vd="egm96"), tiers=("thorough",)),
    Case("many-cart", table, ANY + "8 masses, 6 stations", budget=1500, masses=tuple(M("cart", 4 + i % 3) for i in range(8)), obs=M("cart", 6), tiers=("thorough",)),
]

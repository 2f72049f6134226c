"""C16: configuration layers override one another key by key."""
import os
import shutil
import tempfile

import confuse
import numpy as np

from engine import clirun, confsym, explore, layers as ly, loader, shims, sym as S
from engine.harness import Case
from . import c13
from . import coord as co
from . import rel

META = {
    "explanation": "config.setup, get_masses and get_observer are executed on real files in the three places a setting can come from, each number in each file being a symbol of its own; every mass, station and reference system obtained must be the one of the highest layer that sets each value.",
    "level": "other",
    "assumptions": ["the YAML parser and confuse are executed as they are", "which keys each file sets is drawn from a family (stated number of combinations); the numbers are arbitrary", "values of the package's own layer are those of its file"],
}


def crs_layer(rng, tag, share):
    c = {}

    def some(k, v):
        if rng.random() < share:
            c[k] = v

    some("ref", rng.choice(["enu", "ellps", "ecef", "cart", "ENU", None]))
    some("name", rng.choice([None, "grs80", "airy", "wgs84", "", None, None]))
    if rng.random() < share:
        c["semimajor_axis"], c["semiminor_axis"] = f"${tag}ea", f"${tag}eb"
    some("longitude_origin", f"${tag}lon0")
    some("latitude_origin", f"${tag}lat0")
    some("altitude_origin", f"${tag}h0")
    some("vdatum", rng.choice([None, "egm96", "egm84", "ellps", "egm2008"]))
    return c


def pts(tag, n):
    return [[f"${tag}p{i}{c}" for c in "xyz"] for i in range(n)]


def mass_layer(rng, tag, share):
    e = {}
    if rng.random() < share:
        e["density"] = f"${tag}rho"
    if rng.random() < share:
        e["gravity_constant"] = f"${tag}Gc"
    if rng.random() < share:
        e["points"] = pts(tag, rng.randint(1, 2))
    if rng.random() < share + 0.2:
        e["crs"] = crs_layer(rng, tag, share)
    return e


def layer(rng, tag, share, nm):
    d = {}
    if nm is not None:
        d["masses"] = [mass_layer(rng, f"{tag}m{i}", share) for i in range(nm)]
    o = {}
    if rng.random() < share:
        o["points"] = pts(tag + "o", rng.randint(1, 2))
    if rng.random() < share + 0.1:
        o["crs"] = crs_layer(rng, tag + "o", share)
    if o:
        d["observers"] = o
    return d


def family(rng, count, share):
    """(layer of the user's directory or None, layer of the user's file or None)"""
    out = []
    while len(out) < count:
        D = layer(rng, "d", share, rng.choice([None, 1, 2, 3])) if rng.random() < 0.85 else None
        U = layer(rng, "u", share, rng.choice([None, 1, 2, 2])) if rng.random() < 0.9 else None
        if D is None and U is None:
            continue
        out.append((D or None, U or None))
    return out


FULL = dict(rho=1)


def fixed():
    """hand-made combinations"""
    def full(tag, ref="enu"):
        return {"density": f"${tag}rho", "gravity_constant": f"${tag}Gc", "points": pts(tag, 2), "file_path": None,
                "crs": {"ref": ref, "name": None, "semimajor_axis": f"${tag}ea", "semiminor_axis": f"${tag}eb", "longitude_origin": f"${tag}lon0", "latitude_origin": f"${tag}lat0", "altitude_origin": f"${tag}h0", "vdatum": "egm96"}}

    def obs(tag, ref="enu"):
        e = full(tag, ref)
        return {k: e[k] for k in ("points", "crs")}

    yield None, {"masses": [full("um0")], "observers": obs("uo")}
    yield {"masses": [full("dm0")], "observers": obs("do")}, None
    yield {"masses": [full("dm0")], "observers": obs("do")}, {"masses": [full("um0", "ellps"), full("um1")], "observers": obs("uo", "ellps")}
    yield {"masses": [full("dm0"), full("dm1", "ellps"), full("dm2")], "observers": obs("do")}, {"masses": [{"density": "$um0rho"}]}
    yield {"masses": [full("dm0"), full("dm1", "ellps")], "observers": obs("do")}, {"observers": {"points": pts("uo", 1)}}
    yield {"masses": [{"density": "$dm0rho"}, {"gravity_constant": "$dm1Gc"}]}, {"masses": [{"points": pts("um0", 2)}, {"points": pts("um1", 2), "density": "$um1rho", "crs": {"ref": "cart"}}], "observers": obs("uo")}
    yield {"observers": obs("do")}, {"masses": [{"points": pts("um0", 3), "crs": {"name": None, "semimajor_axis": "$um0ea", "semiminor_axis": "$um0eb", "ref": "enu", "longitude_origin": "$um0lon0"}}]}
    yield None, {"masses": [{"points": pts("um0", 2)}], "observers": {"points": pts("uo", 2), "crs": {"ref": "ecef"}}}
    yield None, {"masses": [{"points": pts("um0", 2)}, {"points": pts("um1", 2), "density": "$um1rho"}], "observers": obs("uo")}  # second mass without a constant: refused


def var(nm):
    return S.var(nm, positive=nm.endswith(("ea", "eb")))


def setup(rep, combos=None, count=0, share=0.6):
    loader.EXTRA["pandas"] = confsym.pandas()
    confsym.install()
    m = co.load()
    cfgm = loader.load("geec.config")
    models = m.crs.Ellipsoid.models
    pk = ly.package(loader.REPO)
    tmp = tempfile.mkdtemp(prefix="geec_c16_")

    def dump(d):
        return clirun.yaml_text(clirun.tokens(ly.fill(d, var)))

    try:
        for D, U in list(combos or ()) + (family(rep.rng, count, share) if count else []):
            names = sorted(set(ly.names(D) + ly.names(U)))
            ranges = {}
            for nm in names:
                for suf, r in (("ea", (6378000, 6379000)), ("eb", (6356000, 6357000)), ("lat0", (-80, 80)), ("lon0", (-170, 170)), ("h0", (0, 1000)), ("rho", (100, 4000)), ("Gc", (1, 5))):
                    if nm.endswith(suf):
                        ranges[nm] = r

            def run(D=D, U=U, names=names):
                confsym.TOKENS.clear()
                for nm in names:
                    if nm.endswith("ea"):
                        explore.assume(var(nm) > 6370000)
                    if nm.endswith("eb"):
                        explore.assume(var(nm) < 6360000)
                        explore.assume(var(nm) > 6300000)
                path = ly.write(tmp, dump, D, U)
                L = [ly.fill(x, var) for x in (U, D, pk) if x is not None]
                want = [ly.dataset(L, ("masses", i), models) for i in range(ly.mass_count(L))]
                num = [(ly.look(L, "masses", i, "density"), ly.look(L, "masses", i, "gravity_constant")) for i in range(len(want))]
                refuse = any(w is None for w in want) or any(x is ly.MISSING or x is None for p in num for x in p)
                out = []
                try:
                    ms = m.mass.get_masses(cfgm.setup(path))
                    if refuse:
                        return [(False, "configuration accepted that cannot be")]
                except (confuse.ConfigError, FileNotFoundError, TypeError) as e:
                    if not refuse and not any(ly.loose(L, ("masses", i)) for i in range(len(want))):
                        raise AssertionError(f"refused: {e}")
                    ms = None
                    out.append((True, "refused"))
                if ms is not None:
                    out.append((len(ms) == len(want), f"{len(want)} masses"))
                    for i, (ma, w, (rho, Gc)) in enumerate(zip(ms, want, num)):
                        out += [(S.lift(ma.density), S.lift(rho), f"mass {i} density"), (S.lift(ma.gravity_constant), S.lift(Gc), f"mass {i} constant")]
                        out += c13.rows_pairs(f"mass {i} point", ma.dataset.coords, w[0])
                        out += co.state_pairs(co.crs_state(m, ma.dataset.crs), w[1])
                w = ly.dataset(L, ("observers",), models)
                if w is None and not ly.look(L, "observers", "points"):
                    return out  # stations from the package's grid: C13
                try:
                    ob = m.observer.get_observer(cfgm.setup(path))
                    if w is None:
                        return [(False, "observers accepted that cannot be")]
                except (confuse.ConfigError, FileNotFoundError, TypeError) as e:
                    if w is not None and not ly.loose(L, ("observers",)):
                        raise AssertionError(f"observers refused: {e}")
                    return out + [(True, "observers refused")]
                return out + c13.rows_pairs("station", ob.dataset.coords, w[0]) + co.state_pairs(co.crs_state(m, ob.dataset.crs), w[1])

            def build(env, D=D, U=U, names=names):
                return {"scenario": "config_layers", "userdir": D, "userfile": U, "env": {k: env[k] for k in names}}

            rel.drive(rep, run, names, build, "settings come from the highest layer that has them", ranges)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CASES = [
    Case("fixed", setup, "9 combinations of the user's file, the user's directory and the package; all numbers any real", budget=200, combos=list(fixed())),
    Case("family", setup, "60 drawn combinations of keys set (60 % of the keys); all numbers any real", budget=300, count=60),
    Case("full", setup, "40 drawn combinations, 90 % of the keys set", budget=300, count=40, share=0.9),
    Case("sparse", setup, "40 drawn combinations, 35 % of the keys set", budget=300, count=40, share=0.35),
    Case("family-many", setup, "1000 drawn combinations", budget=1500, count=1000, tiers=("thorough",)),
    Case("full-many", setup, "600 drawn combinations, 85 % of the keys set", budget=1500, count=600, share=0.85, tiers=("thorough",)),
]

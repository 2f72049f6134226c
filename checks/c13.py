"""C13: points, bodies and stations are read as configured."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from engine import confsym, crs_spec, explore, loader, shims, sym as S
from engine.harness import Case
from . import coord as co
from . import grav as g
from . import rel

META = {
    "explanation": "get_dataset, get_masses and get_observer are executed on configurations whose points, grid limits, densities, constants, axes and origins are symbolic (numbers in a CSV file are tokens exchanged for symbols when the file is read); the coordinates, order and attributes obtained are compared with those configured.",
    "level": "other",
    "assumptions": ["confuse and the CSV reader are executed as they are", "real arithmetic for the grid (the number of nodes is decided branch by branch)", "numbers of points, masses and grid nodes are bounded"],
}

VIAS = ("dataset", "masses", "observer")
AXES = "xyz"


def load():
    loader.EXTRA["pandas"] = confsym.pandas()
    m = co.load()
    confsym.install()
    return m


def grid_cfg(v):
    return {f"{c}start_{c}end_{c}step": v[c] for c in AXES}


def source(src, val, tmp=None):
    """configuration entries of one source; val(name) gives a symbol or a number.
    src: {"points": n} / {"file": n} / {"grid": True, "missing": ..}"""
    out = {"points": None, "file_path": None, "grid": None}
    same = src.get("same", {})
    if "points" in src:
        out["points"] = [[val(f"p{same.get(i, i)}{c}") for c in AXES] for i in range(src["points"])]
    if "const" in src:
        out["points"] = [list(r) for r in src["const"]]
    if "file" in src:
        path = os.path.join(tmp, "pts.csv")
        if not src.get("missing"):
            with open(path, "w") as f:
                for i in range(src["file"]):
                    f.write(src.get("sep", ",").join(repr(confsym.token(val(f"f{same.get(i, i)}{c}"))) for c in AXES) + "\n")
                f.write(src.get("tail", ""))
        out["file_path"] = path
    if "grid" in src:
        out["grid"] = grid_cfg({c: [val(f"{c}{k}") for k in ("a", "b", "s")] if c in src["grid"] else [src["fix"][c][0], src["fix"][c][1], src["fix"][c][2]] for c in AXES})
    return out


def names_of(src):
    r = [f"p{i}{c}" for i in range(src.get("points", 0)) for c in AXES]
    r += [f"f{i}{c}" for i in range(src.get("file", 0)) for c in AXES]
    r += [f"{c}{k}" for c in src.get("grid", ()) for k in "abs"]
    return r


def var(nm):
    return S.var(nm, positive=nm[-1] == "s" and nm[0] in AXES)


def expected(src, use):
    """rows of points that must be read"""
    same = src.get("same", {})
    if use == "points":
        if "const" in src:
            return [[S.lift(x) for x in r] for r in src["const"]]
        return [[var(f"p{same.get(i, i)}{c}") for c in AXES] for i in range(src["points"])]
    if use == "file":
        return [[var(f"f{same.get(i, i)}{c}") for c in AXES] for i in range(src["file"])]
    ax = []
    for c in AXES:
        a, b, s = (var(f"{c}{k}") for k in "abs") if c in src["grid"] else src["fix"][c]
        n = shims.count(a, b, s)
        ax.append([S.lift(a) + k * S.lift(s) for k in range(n)])
    return [list(p) for p in itertools.product(*ax)]


CRS0 = {"ref": "cart", "name": None, "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": None, "latitude_origin": None, "altitude_origin": None, "vdatum": None}


def obtain(m, entry, via):
    """(coords, crs) read through one of the entry points"""
    if via == "dataset":
        d = m.dataset.get_dataset(confsym.config({"x": entry})["x"])
    elif via == "masses":
        ms = m.mass.get_masses(confsym.config({"masses": [entry]}))
        assert len(ms) == 1, f"{len(ms)} masses"
        d = ms[0].dataset
    else:
        d = m.observer.get_observer(confsym.config({"observers": entry})).dataset
    return d


def rows_pairs(tag, coords, want):
    W = np.array(want, dtype=object).reshape(len(want), 3)
    return rel.pairs(tag, np.asarray(coords, dtype=object), W)


def one(rep, src=None, use="points", vias=VIAS, refs=("cart",), ranges=None):
    m = load()
    names = names_of(src)
    for via in vias:
        for ref in refs:
            tmp = tempfile.mkdtemp(prefix="geec_c13_")
            try:
                def run(via=via, ref=ref):
                    for c in src.get("grid", ()):
                        explore.assume(var(c + "s") > 0)
                        n = src.get("nodes", {}).get(c, 2)
                        explore.assume(var(c + "b") > var(c + "a") if n else var(c + "b") <= var(c + "a"))
                        explore.assume(var(c + "b") - var(c + "a") <= n * var(c + "s"))
                    entry = {**source(src, var, tmp), "crs": {**CRS0, "ref": ref}, "density": 1.0, "gravity_constant": 1.0}
                    if use is None:
                        try:
                            d = obtain(m, entry, via)
                        except (AssertionError, S.Unsupported, S.Undefined, explore.BoundExceeded):
                            raise
                        except Exception as e:  # noqa: BLE001
                            ok = isinstance(e, FileNotFoundError) or not src.get("missing")
                            return [(ok, f"refused ({type(e).__name__})")]
                        return [(False, "accepted")]
                    d = obtain(m, entry, via)
                    out = rows_pairs("point", d.coords, expected(src, use))
                    if src.get("then"):
                        pass
                    return out

                def build(env, via=via, ref=ref):
                    return {"scenario": "reading", "src": src, "use": use, "via": via, "ref": ref, "env": {k: env[k] for k in names}}

                rel.drive(rep, run, names, build, f"{src} read through {via}", ranges or {})
            finally:
                shutil.rmtree(tmp, ignore_errors=True)


def integers(rep, kind="points"):
    """whole numbers in the configuration, then a conversion that adds fractions"""
    m = load()
    if kind == "points":
        src = {"const": [[1, 45, 100], [2, 46, 200], [3, -12, 7]]}
        use = "points"
    else:
        src = {"grid": "", "fix": {"x": [1, 3, 1], "y": [45, 47, 1], "z": [0, 100, 50]}}
        use = "grid"
    for via, vd in itertools.product(VIAS, ("egm96", "egm84", "ellps")):
        def run(via=via, vd=vd):
            entry = {**source(src, var), "crs": {**CRS0, "ref": "ellps", "vdatum": vd}, "density": 1.0, "gravity_constant": 1.0}
            d = obtain(m, entry, via)
            W = expected(src, use)
            out = rows_pairs("point", d.coords, W)
            d.to_ellipsoid_height()
            f = co.VD[vd]
            H = [[p[0], p[1], p[2] + (S.uf("geoid_" + f, S.lift(p[1]), S.lift(p[0])) if f else 0)] for p in W]
            return out + rows_pairs("height", d.coords, H)

        def build(env, via=via, vd=vd):
            return {"scenario": "reading", "src": src, "use": use, "via": via, "ref": "ellps", "vdatum": vd, "then": "height", "env": {}}

        rel.drive(rep, run, [], build, f"whole numbers read through {via}, heights from {vd}")


def several(rep, k=3, kinds=("cart", "ellps", "enu")):
    """k masses with their own everything, and the observers beside them"""
    m = load()
    models = m.crs.Ellipsoid.models
    names, ranges = [], dict(co.RANGES)
    for i in range(k):
        names += [f"rho{i}", f"Gc{i}", f"lon{i}", f"lat{i}", f"h{i}", f"ea{i}", f"eb{i}"] + [f"m{i}p{j}{c}" for j in range(4 + i % 2) for c in AXES]
        ranges.update({f"ea{i}": (6378000, 6379000), f"eb{i}": (6356000, 6357000), f"lat{i}": (-80, 80), f"lon{i}": (-170, 170)})
    names += [f"o{j}{c}" for j in range(2) for c in AXES]
    tmp = tempfile.mkdtemp(prefix="geec_c13_")

    def entries(val, write):
        out = []
        for i in range(k):
            kind = kinds[i % len(kinds)]
            pts = [[val(f"m{i}p{j}{c}") for c in AXES] for j in range(4 + i % 2)]
            sec = dict(CRS0, ref=kind, vdatum=(None, "egm96", "egm84")[i % 3])
            if kind in ("ellps", "enu"):
                sec.update(semimajor_axis=val(f"ea{i}"), semiminor_axis=val(f"eb{i}"))
            if kind == "enu":
                sec.update(longitude_origin=val(f"lon{i}"), latitude_origin=val(f"lat{i}"), altitude_origin=val(f"h{i}"))
            e = {"points": pts, "file_path": None, "grid": None, "density": val(f"rho{i}"), "gravity_constant": val(f"Gc{i}"), "crs": sec}
            if i % 3 == 1 and write:  # this one from a file
                path = os.path.join(tmp, f"m{i}.csv")
                with open(path, "w") as f:
                    f.writelines(",".join(repr(confsym.token(x)) for x in r) + "\n" for r in pts)
                e.update(points=None, file_path=path)
            out.append((e, pts))
        obs = [[val(f"o{j}{c}") for c in AXES] for j in range(2)]
        return out, obs

    def vv(nm):
        return S.var(nm, positive=nm[:2] in ("ea", "eb"))

    def run():
        es, obs = entries(vv, True)
        for i in range(k):
            if kinds[i % len(kinds)] in ("ellps", "enu"):
                explore.assume(vv(f"ea{i}") > vv(f"eb{i}"))
        cfg = confsym.config({"masses": [e for e, _ in es], "observers": {"points": obs, "file_path": None, "grid": None, "crs": {**CRS0, "ref": "ecef"}}})
        ms = m.mass.get_masses(cfg)
        out = [(len(ms) == k, f"{k} masses")]
        for i, ((e, pts), ma) in enumerate(zip(es, ms)):
            out += [(S.lift(ma.density), e["density"], f"mass {i} density"), (S.lift(ma.gravity_constant), e["gravity_constant"], f"mass {i} constant")]
            out += rows_pairs(f"mass {i} point", ma.dataset.coords, pts)
            out += co.state_pairs(co.crs_state(m, ma.dataset.crs), crs_spec.expected(e["crs"], models))
        ob = m.observer.get_observer(cfg)
        out += rows_pairs("station", ob.dataset.coords, obs)
        out += co.state_pairs(co.crs_state(m, ob.dataset.crs), crs_spec.expected({**CRS0, "ref": "ecef"}, models))
        # reading again gives the same
        for i, ((e, pts), ma) in enumerate(zip(es, m.mass.get_masses(cfg))):
            out += [(S.lift(ma.density), e["density"], f"again: mass {i} density")] + rows_pairs(f"again: mass {i} point", ma.dataset.coords, pts)
        return out

    def build(env):
        es, obs = entries(lambda nm: env[nm], False)
        return {"scenario": "reading_masses", "masses": [dict(e, points=p) for e, p in es], "files": [i % 3 == 1 for i in range(k)], "obs": obs}

    try:
        rel.drive(rep, run, names, build, f"{k} masses {kinds} and 2 stations", ranges)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ANY = "all coordinates any real; "
FIX = {"x": [0.5, 2.5, 1.0], "y": [-1.0, 1.0, 0.5], "z": [10.0, 30.0, 10.0]}
GR = {f"{c}{k}": r for c in AXES for k, r in (("a", (-20, 20)), ("b", (-18, 30)), ("s", (1, 12)))}
CASES = [
    Case("points", one, ANY + "3 points listed, through datasets, masses and observers", budget=100, src={"points": 3}, refs=("cart", "ellps", "ecef")),
    Case("point", one, ANY + "1 point", budget=100, src={"points": 1}),
    Case("points4", one, ANY + "4 points", budget=100, src={"points": 4}, vias=("dataset",)),
    Case("file", one, ANY + "CSV file with 3 rows", budget=100, src={"file": 3}, use="file", refs=("cart", "ellps")),
    Case("file1", one, ANY + "CSV file with 1 row", budget=100, src={"file": 1}, use="file"),
    Case("file-blank", one, ANY + "CSV file with 4 rows, blanks after the commas, an empty line at the end", budget=100, src={"file": 4, "sep": ", ", "tail": "\n"}, use="file"),
    Case("grid-z", one, "grid, z limits and step any real, up to 3 nodes on z", budget=200, src={"grid": "z", "fix": FIX, "nodes": {"z": 3}}, use="grid", ranges=GR),
    Case("grid-x", one, "grid, x limits and step any real, up to 3 nodes on x", budget=200, src={"grid": "x", "fix": FIX, "nodes": {"x": 3}}, use="grid", ranges=GR),
    Case("grid-xyz", one, "grid, all limits and steps any real, up to 2 nodes on each axis", budget=300, src={"grid": "xyz", "fix": FIX}, use="grid", ranges=GR, vias=("dataset", "observer")),
    Case("grid-const", one, "a grid with given numbers", budget=100, src={"grid": "", "fix": FIX}, use="grid"),
    Case("points-twice", one, ANY + "5 points listed, two of them the same as others", budget=100, src={"points": 5, "same": {2: 0, 4: 3}}),
    Case("file-twice", one, ANY + "CSV file with 5 rows, two of them the same as others", budget=100, src={"file": 5, "same": {1: 0, 4: 2}}, use="file"),
    Case("points-first", one, "points, file and grid all given: points", budget=100, src={"points": 2, "file": 3, "grid": "", "fix": FIX}),
    Case("file-second", one, "file and grid given: file", budget=100, src={"file": 2, "grid": "", "fix": FIX}, use="file"),
    Case("points-grid", one, "points and grid given: points", budget=100, src={"points": 2, "grid": "z", "fix": FIX}, ranges=GR),
    Case("missing", one, "file that does not exist", budget=100, src={"file": 1, "missing": True}, use=None),
    Case("missing-grid", one, "file that does not exist beside a grid", budget=100, src={"file": 1, "missing": True, "grid": "", "fix": FIX}, use=None),
    Case("nothing", one, "no source at all", budget=100, src={}, use=None),
    Case("integers", integers, "whole numbers in points, then geoid heights (any function)", budget=100),
    Case("integers-grid", integers, "whole numbers in a grid, then geoid heights (any function)", budget=100, kind="grid"),
    Case("masses", several, "3 masses with their own density, constant, points and reference system; one from a file; 2 stations", budget=200),
    Case("masses5", several, "5 masses in all kinds of reference systems, 2 stations", budget=300, k=5, kinds=("enu", "ecef", "ellps", "cart")),
    Case("grid-xyz3", one, "grid, all limits and steps any real, up to 3 nodes on each axis", budget=1500, src={"grid": "xyz", "fix": FIX, "nodes": {c: 3 for c in AXES}}, use="grid", ranges=GR, tiers=("thorough",)),
    Case("masses8", several, "8 masses", budget=900, k=8, kinds=("cart", "ellps", "enu", "ecef"), tiers=("thorough",)),
]
CASES += [Case(f"grid-empty-{c}", one, f"grid whose end is not beyond its start on {c} (3 reals): no point", budget=100, src={"grid": c, "fix": FIX, "nodes": {c: 0}}, use="grid", vias=("dataset", "observer")) for c in AXES]

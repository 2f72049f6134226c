"""Reading of points, masses and stations by the unpatched code."""
import itertools
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from . import crs_spec, geo_replay

CRS0 = {"ref": "cart", "name": None, "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": None, "latitude_origin": None, "altitude_origin": None, "vdatum": None}
AXES = "xyz"


def config(d):
    import confuse

    c = confuse.Configuration("geec_verif", read=False)
    c.set(d)
    return c


def close(tag, got, want):
    got, want = np.asarray(got), np.array(want, dtype=float).reshape(-1, 3)
    if got.shape != want.shape or not np.issubdtype(got.dtype, np.number) or not np.allclose(got.astype(float), want, rtol=1e-10, atol=1e-10):
        return f"{tag}: {got.tolist()} instead of {want.tolist()}"
    return ""


def write_csv(path, rows, sep=",", tail=""):
    with open(path, "w") as f:
        for r in rows:
            f.write(sep.join(repr(float(x)) for x in r) + "\n")
        f.write(tail)


def reading(spec, num):
    tmp = tempfile.mkdtemp(prefix="geec_c13_")
    try:
        return _reading(spec, num, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _reading(spec, num, tmp):
    geec = geo_replay.load()
    src, env, use, via = spec["src"], num(spec["env"]), spec["use"], spec["via"]
    e = {"points": None, "file_path": None, "grid": None, "density": 1.0, "gravity_constant": 1.0, "crs": {**CRS0, "ref": spec["ref"], "vdatum": spec.get("vdatum")}}
    want = None

    def same(i):
        return src.get("same", {}).get(str(i), src.get("same", {}).get(i, i))

    if "grid" in src:
        ax = {}
        for c in AXES:
            ax[c] = [env[f"{c}{k}"] for k in "abs"] if c in src["grid"] else src["fix"][c]
        e["grid"] = {f"{c}start_{c}end_{c}step": ax[c] for c in AXES}
        cols = []
        for c in AXES:
            a, b, s = ax[c]
            n = math.ceil((Fraction(b) - Fraction(a)) / Fraction(s))
            if n != math.ceil((float(b) - float(a)) / float(s)):
                return ""  # rounding decides the number of nodes
            cols.append([a + k * s for k in range(max(n, 0))])
        grid = [list(p) for p in itertools.product(*cols)]
        want = grid if use == "grid" else want
    if "file" in src:
        e["file_path"] = os.path.join(tmp, "pts.csv")
        rows = [[env[f"f{same(i)}{c}"] for c in AXES] for i in range(src["file"])]
        if not src.get("missing"):
            write_csv(e["file_path"], rows, src.get("sep", ","), src.get("tail", ""))
        want = rows if use == "file" else want
    if "points" in src:
        e["points"] = [[env[f"p{same(i)}{c}"] for c in AXES] for i in range(src["points"])]
        want = e["points"] if use == "points" else want
    if "const" in src:
        e["points"] = src["const"]
        want = src["const"]
    tag = f"{ {k: e[k] for k in ('points', 'file_path', 'grid')} } through {via}"
    try:
        if via == "dataset":
            d = geec.dataset.get_dataset(config({"x": e})["x"])
        elif via == "masses":
            ms = geec.mass.get_masses(config({"masses": [e]}))
            if len(ms) != 1:
                return f"{tag}: {len(ms)} masses"
            d = ms[0].dataset
        else:
            d = geec.observer.get_observer(config({"observers": e})).dataset
    except Exception as x:  # noqa: BLE001
        if use is None and (isinstance(x, FileNotFoundError) or not src.get("missing")):
            return ""
        return f"{tag}: raised {x!r}"
    if use is None:
        return f"{tag}: accepted, gives {np.asarray(d.coords).tolist()}"
    bad = close(tag, d.coords, want)
    if bad or spec.get("then") != "height":
        return bad
    try:
        d.to_ellipsoid_height()
    except Exception as x:  # noqa: BLE001
        return f"{tag}: to_ellipsoid_height raised {x!r}"
    f = {"egm84": "egm84-15", "egm96": "egm96-5"}.get(spec["vdatum"])
    H = [[a, b, h + (geo_replay.FakeGeoid(f).h(b, a) if f else 0)] for a, b, h in want]
    return close(tag + " ellipsoid heights", d.coords, H)


def section(s, num):
    return {k: (v if k in ("ref", "name", "vdatum") or v is None else num(v)) for k, v in s.items()}


def reading_masses(spec, num):
    tmp = tempfile.mkdtemp(prefix="geec_c13_")
    try:
        geec = geo_replay.load()
        ms = []
        for i, mm in enumerate(spec["masses"]):
            e = {"points": num(mm["points"]), "file_path": None, "grid": None, "density": num(mm["density"]), "gravity_constant": num(mm["gravity_constant"]), "crs": section(mm["crs"], num)}
            ms.append((dict(e), e["points"]))
            if spec["files"][i]:
                path = os.path.join(tmp, f"m{i}.csv")
                write_csv(path, e["points"])
                ms[-1][0].update(points=None, file_path=path)
        obs = num(spec["obs"])
        cfg = config({"masses": [e for e, _ in ms], "observers": {"points": obs, "file_path": None, "grid": None, "crs": {**CRS0, "ref": "ecef"}}})
        try:
            for turn in (0, 1):
                got = geec.mass.get_masses(cfg)
                if len(got) != len(ms):
                    return f"{len(got)} masses instead of {len(ms)}"
                for i, ((e, pts), g) in enumerate(zip(ms, got)):
                    if not (math.isclose(g.density, e["density"], rel_tol=1e-12) and math.isclose(g.gravity_constant, e["gravity_constant"], rel_tol=1e-12)):
                        return f"mass {i}: density {g.density} constant {g.gravity_constant} instead of {e['density']} {e['gravity_constant']}"
                    bad = close(f"mass {i}", g.dataset.coords, pts) or geo_replay.same_state(geo_replay.state(g.dataset.crs), crs_spec.expected(e["crs"], geec.crs.Ellipsoid.models))
                    if bad:
                        return f"mass {i}: {bad}"
            ob = geec.observer.get_observer(cfg)
        except Exception as x:  # noqa: BLE001
            return f"raised {x!r}"
        return close("stations", ob.dataset.coords, obs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

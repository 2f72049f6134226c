"""The run command of the unpatched code, in a scratch directory."""
import csv
import os
import shutil
import tempfile

import numpy as np

from . import geo_replay, read_replay

AXES = "xyz"
HEAD = {True: (["x_mes", "y_mes", "z_mes"], ["(m)"] * 3), False: (["lon_mes", "lat_mes", "alt_mes"], ["(degree_east)", "(degree_north)", "(m)"])}
FIELD = (["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"], ["(mGal)"] * 3 + ["(E)"] * 6)


def scratch(prefix):
    tmp = tempfile.mkdtemp(prefix=prefix)
    os.environ["GEECDIR"] = os.path.join(tmp, "userdir")
    os.makedirs(os.environ["GEECDIR"])
    os.environ["HOME"] = tmp
    return tmp


def numbers(v, num):
    """configuration with its numbers (fractions as text) made floats"""
    if isinstance(v, dict):
        return {k: (x if k in ("ref", "name", "vdatum", "file_path") else numbers(x, num)) for k, x in v.items()}
    if isinstance(v, list):
        return [numbers(x, num) for x in v]
    return None if v is None else num(v)


def place(pm, models, sec, pts):
    kind = sec["ref"]
    p = np.array(pts, dtype=float)
    if sec["semimajor_axis"] is not None and not sec["name"]:
        ell = pm.Ellipsoid(sec["semimajor_axis"], sec["semiminor_axis"])
    else:
        e = models[sec["name"] or "wgs84"]
        ell = pm.Ellipsoid(e["a"], e["b"])
    w = pm.Ellipsoid(models["wgs84"]["a"], models["wgs84"]["b"])
    if kind == "cart":
        return p, p
    if kind == "ecef":
        x = p
    elif kind == "enu":
        x = np.array(pm.enu2ecef(p[:, 0], p[:, 1], p[:, 2], sec["latitude_origin"], sec["longitude_origin"], sec["altitude_origin"], ell=ell)).T
    else:
        p = p.copy()
        p[:, 0] = np.where(p[:, 0] > 180, p[:, 0] - 360, p[:, 0])
        f = {"egm84": "egm84-15", "egm96": "egm96-5", "egm2008": "egm2008-2_5"}.get(sec["vdatum"])
        if f:
            gd = geo_replay.FakeGeoid(f)
            p[:, 2] += [gd.h(b, a) for a, b, _ in p]
        x = np.array(pm.geodetic2ecef(p[:, 1], p[:, 0], p[:, 2], ell=ell)).T
    lat, lon, alt = pm.ecef2geodetic(x[:, 0], x[:, 1], x[:, 2], ell=w)
    return x, np.array([lon, lat, alt]).T


def table(spec, num):
    tmp = scratch("geec_c14_")
    try:
        return _table(spec, num, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _table(spec, num, tmp):
    import pymap3d as pm
    import yaml

    geec = geo_replay.load()
    import geec.cli as cli
    from geec.polyhedron import Polyhedron

    cfg = numbers(spec["config"], num)
    models = geec.crs.Ellipsoid.models
    st, geod = place(pm, models, cfg["observers"]["crs"], cfg["observers"]["points"])
    bodies = [(place(pm, models, e["crs"], e["points"])[0], e["density"], e["gravity_constant"]) for e in cfg["masses"]]
    fields = []
    try:
        for o in st:
            fields.append([Polyhedron(pts).get_gravity(o, rho, Gc, spec["gradient"]) for pts, rho, Gc in bodies])
    except Exception:  # noqa: BLE001
        return ""  # not a body, or not an observable point: another property
    import copy

    user = copy.deepcopy(cfg)
    for k, e in enumerate(user["masses"]):
        if spec["files"][k]:
            path = os.path.join(tmp, f"mass{k}.csv")
            read_replay.write_csv(path, e["points"])
            e.update(points=None, file_path=path)
    f = os.path.join(tmp, "user.yaml")
    with open(f, "w") as h:
        h.write(yaml.safe_dump(user, sort_keys=False))
    path = os.path.join(tmp, "res", spec["out"])
    tag = f"masses {[(e['crs']['ref'], e['crs']['vdatum'], e['density'], e['gravity_constant']) for e in cfg['masses']]} stations {cfg['observers']['crs']['ref']} {cfg['observers']['points']}: "
    try:
        if spec["via"] == "function":
            cli.run(path, f, spec["gradient"])
        else:
            from typer.testing import CliRunner

            cli.geec.api.setup_logger = lambda: None
            r = CliRunner().invoke(cli.app, ["run", path, "--config", f] + (["--gradient"] if spec["gradient"] else []), catch_exceptions=False)
            if r.exit_code:
                return tag + f"exit code {r.exit_code}: {r.output[-200:]}"
    except Exception as e:  # noqa: BLE001
        return tag + f"raised {e!r}"
    want = os.path.join(tmp, "res", os.path.dirname(spec["out"]), os.path.splitext(os.path.basename(spec["out"]))[0] + ".csv")
    if not os.path.isfile(want):
        return tag + f"no table {spec['out']}"
    with open(want, newline="") as h:
        rows = list(csv.reader(h))
    hn, hu = HEAD[spec["cart"]]
    if rows[0] != hn + FIELD[0] or rows[1] != hu + FIELD[1]:
        return tag + f"columns {rows[0]} {rows[1]}"
    if len(rows) - 2 != len(st):
        return tag + f"{len(rows) - 2} rows for {len(st)} stations"
    for i, r in enumerate(rows[2:]):
        v = np.array([float(x) for x in r])
        if len(v) != 12:
            return tag + f"row {i} has {len(v)} cells"
        # 1e-9 degrees, 0.1 mm
        if (np.abs(v[:3] - geod[i]) > np.array([1e-8, 1e-8, 1e-4]) * (1 if not spec["cart"] else 1e-3)).any():
            return tag + f"row {i} coordinates {v[:3].tolist()} instead of {geod[i].tolist()}"
        G, T, sg, s_t = np.zeros(3), np.zeros((3, 3)), 0.0, 0.0
        for a, b in fields[i]:
            G, T = G + a, T + b
            sg, s_t = sg + np.abs(a).max(), s_t + np.abs(b).max()
        ref = np.concatenate([G, T.flatten()[[0, 1, 2, 4, 5, 8]]])
        sc = np.array([sg] * 3 + [s_t] * 6)
        if not np.isfinite(ref).all():
            continue
        if not (np.abs(v[3:] - ref) <= 1e-5 * sc + 1e-300).all():
            return tag + f"row {i} fields {v[3:].tolist()} instead of {ref.tolist()}"
    return ""

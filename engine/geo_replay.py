"""Concrete datasets on the unpatched code (geoid grids replaced by a formula: the data
files are not part of the repository)."""
import math

import numpy as np


class FakeGeoid:
    PAR = {"egm84-15": (3, 5, 7), "egm96-5": (2, 9, 4), "egm2008-2_5": (6, 1, 8)}

    def __init__(self, path, *a, **k):
        self.p = self.PAR[str(path).replace("\\", "/").rsplit("/", 1)[-1].rsplit(".", 1)[0]]

    zero = False

    def h(self, lat, lon):
        if FakeGeoid.zero:
            return 0.0
        p, q, r = self.p
        return p * math.sin(float(lat) / q) + r * math.cos(float(lon) / 3)

    def __call__(self, *ll, **k):
        if len(ll) == 1 and isinstance(ll[0], (list, tuple)):
            return [self.h(p.lat, p.lon) for p in ll[0]]
        if len(ll) == 1:
            return self.h(ll[0].lat, ll[0].lon)
        return tuple(self.h(p.lat, p.lon) for p in ll)

    def height(self, lats, lons, **k):
        if isinstance(lats, (list, tuple, np.ndarray)):
            return [self.h(a, b) for a, b in zip(lats, lons)]
        return self.h(lats, lons)


def load():
    import pygeodesy

    pygeodesy.GeoidKarney = FakeGeoid
    import pygeodesy.geoids

    pygeodesy.geoids.GeoidKarney = FakeGeoid
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer

    return geec


def make(geec, d, num):
    """(call, get dataset, coords, crs pieces)"""
    C = geec.crs
    ell = d["ell"]
    if isinstance(ell, list):
        a, b = num(ell)
        e = C.Ellipsoid(semimajor_axis=a, semiminor_axis=b)
    else:
        e = C.Ellipsoid(name=ell)
    v = C.VDatumEnum(d["vdatum"])
    k = d["kind"]
    if k == "cart":
        crs = C.CRS(name=C.CRSEnum.CART)
    elif k == "ecef":
        crs = C.CRS(name=C.CRSEnum.ECEF)
    elif k == "ellps":
        crs = C.CRS(name=C.CRSEnum.ELLPS, ellps=e, vdatum=v)
    else:
        lon0, lat0, h0 = num(d["origin"])
        crs = C.CRS(name=C.CRSEnum.ENU, ellps=e, vdatum=v, enu=C.ENU(ellps=e, longitude_origin=lon0, latitude_origin=lat0, altitude_origin=h0))
    coords = np.array(num(d["coords"]), dtype=float)
    ds = geec.dataset.Dataset(coords=coords.copy(), crs=crs)
    via = d["via"]
    if via == "dataset":
        return (lambda op, *a: getattr(ds, op)(*a)), (lambda: ds), coords
    if via == "mass":
        o = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)
    elif via == "observer":
        o = geec.observer.Observer(dataset=ds)
    else:
        from .crs_spec import OTHER_PTS, OTHERS

        par = [dict(zip(("density", "gravity_constant"), num(x))) for x in d["masses"]]
        o = geec.mass.Mass(**par[OTHERS[via].index("o")], dataset=ds)

        def other(kind, i):
            oc = C.CRS(name=C.CRSEnum.CART)
            if kind == "same":
                u = None if crs.enu is None else C.ENU(ellps=C.Ellipsoid(), longitude_origin=3.0, latitude_origin=45.0, altitude_origin=10.0)
                oc = C.CRS(name=crs.name, ellps=None if crs.ellps is None else C.Ellipsoid(), enu=u, vdatum=crs.vdatum)
            pts = np.array(OTHER_PTS, dtype=float) + i
            return geec.mass.Mass(**par[i], dataset=geec.dataset.Dataset(coords=pts, crs=oc))

        lst = [o if x == "o" else other(x, i) for i, x in enumerate(OTHERS[via])]
        return (lambda op, *a: getattr(geec.mass, op)(lst, *a)), (lambda: o.dataset), coords
    return (lambda op, *a: getattr(o, op)(*a)), (lambda: o.dataset), coords


def state(c):
    e = (c.ellps.semimajor_axis, c.ellps.semiminor_axis) if c.ellps is not None else None
    u = None
    if c.enu is not None:
        u = (c.enu.longitude_origin, c.enu.latitude_origin, c.enu.altitude_origin, c.enu.ellps.semimajor_axis, c.enu.ellps.semiminor_axis)
    return str(c.name), e, u, str(c.vdatum)


def lon180(spec, num):
    geec = load()
    call, get, c = make(geec, spec["ds"], num)
    s0 = state(get().crs)
    tag = f"{spec['ds']['kind']} via {spec['ds']['via']} coords={c.tolist()}: "
    try:
        call("to_lon180")
        if spec["twice"]:
            call("to_lon180")
    except Exception as e:  # noqa: BLE001
        return tag + f"raised {e!r}"
    r = np.asarray(get().coords, dtype=float)
    if r.shape != c.shape:
        return tag + f"shape {r.shape}"
    if state(get().crs) != s0:
        return tag + f"CRS changed from {s0} to {state(get().crs)}"
    if spec["ds"]["kind"] != "ellps":
        return "" if np.array_equal(r, c) else tag + f"changed to {r.tolist()}"
    if not np.array_equal(r[:, 1:], c[:, 1:]):
        return tag + f"latitude or altitude changed: {r.tolist()}"
    if (r[:, 0] < -180 - 1e-9).any() or (r[:, 0] > 180 + 1e-9).any():
        return tag + f"longitudes {r[:, 0].tolist()} outside -180..180"
    d = (r[:, 0] - c[:, 0]) / 360
    if np.abs(d - np.round(d)).max() > 1e-9:
        return tag + f"longitudes {r[:, 0].tolist()} are not the same modulo 360"
    return ""


def height(spec, num):
    """with a geoid that varies, then with one that is zero everywhere"""
    try:
        for FakeGeoid.zero in (False, True):
            bad = _height(spec, num)
            if bad:
                return ("zero geoid: " if FakeGeoid.zero else "") + bad
        return ""
    finally:
        FakeGeoid.zero = False


def _height(spec, num):
    geec = load()
    d = spec["ds"]
    call, get, c = make(geec, d, num)
    tag = f"{d['kind']} {d['vdatum']} via {d['via']} coords={c.tolist()}: "
    if spec.get("before"):
        call(spec["before"])
        c = np.asarray(get().coords, dtype=float).copy()
    s0 = state(get().crs)
    try:
        for _ in range(spec["times"]):
            call("to_ellipsoid_height")
    except Exception as e:  # noqa: BLE001
        return tag + f"raised {e!r}"
    want = c.copy()
    if d["kind"] == "ellps":
        f = {"egm84": "egm84-15", "egm96": "egm96-5", "egm2008": "egm2008-2_5"}.get(d["vdatum"])
        if f:
            gd = FakeGeoid(f)
            for r in want:
                r[2] += gd.h(r[1], r[0])
    r = np.asarray(get().coords, dtype=float)
    if r.shape != want.shape or np.abs(r - want).max() > 1e-8:
        return tag + f"{r.tolist()} instead of {want.tolist()}"
    s = state(get().crs)
    if d["kind"] == "ellps":
        s0 = s0[:3] + ("ellps",)
    else:
        s, s0 = s[:3], s0[:3]
    return "" if s == s0 else tag + f"CRS {s} instead of {s0}"


def position(d):
    import pymap3d as pm

    c, p = d.crs, np.asarray(d.coords, dtype=float)
    if p.size == 0 or p.ndim != 2 or p.shape[1] != 3:
        raise ValueError(f"coordinates of shape {p.shape}")
    k = str(c.name)
    if k == "ellps":
        return np.array(pm.geodetic2ecef(p[:, 1], p[:, 0], p[:, 2], ell=pm.Ellipsoid(c.ellps.semimajor_axis, c.ellps.semiminor_axis))).T
    if k == "enu":
        e = c.enu
        return np.array(pm.enu2ecef(p[:, 0], p[:, 1], p[:, 2], e.latitude_origin, e.longitude_origin, e.altitude_origin, ell=pm.Ellipsoid(e.ellps.semimajor_axis, e.ellps.semiminor_axis))).T
    return p.copy()


def transform(spec, num):
    geec = load()
    d = spec["ds"]
    call, get, c = make(geec, d, num)
    tag = f"{d['kind']} ellipsoid {d['ell']} origin {d['origin']} via {d['via']} coords={c.tolist()} to_enu={spec['to']} {spec['seq']}: "
    p0 = position(get())
    tol = 1e-4
    for i, op in enumerate(spec["seq"]):
        k0, b, s0 = str(get().crs.name), np.asarray(get().coords, dtype=float).copy(), state(get().crs)
        try:
            call(op, *(num(spec["to"]) if op == "to_enu" else ()))
            s = state(get().crs)
            k = s[0]
            if k0 == "cart" or (k0 == "enu" and op == "to_enu") or (k0 == "ecef" and op == "to_ecef"):
                if s != s0 or not np.array_equal(get().coords, b):
                    return tag + f"step {i} changed {b.tolist()} {s0} to {np.asarray(get().coords).tolist()} {s}"
                continue
            want = {"to_ecef": "ecef", "to_wgs84": "ellps", "to_enu": "enu"}[op]
            if k != want:
                return tag + f"step {i}: CRS name {k}"
            if k == "ellps" and (s[1] != state(geec.crs.CRS(ellps=geec.crs.Ellipsoid(name="wgs84")))[1] or s[2] is not None):
                return tag + f"step {i}: CRS {s} is not WGS84"
            if k == "enu" and (s[2] is None or s[1] is None or list(s[2][:3]) != num(spec["to"]) or s[2][3:] != s[1]):
                return tag + f"step {i}: CRS {s}"
            if s[3] != s0[3]:
                return tag + f"step {i}: vertical datum {s[3]} instead of {s0[3]}"
            p = position(get())
        except Exception as e:  # noqa: BLE001
            return tag + f"step {i} raised {e!r}"
        if p.shape != p0.shape or not np.abs(p - p0).max() < tol:
            return tag + f"step {i} moved the points from {p0.tolist()} to {p.tolist()} (ECEF)"
    return ""


def same_state(s, w, rtol=1e-12):
    """'' or the difference between a CRS state and the expected one"""
    if s[0] != w[0] or s[3] != w[3]:
        return f"{s} instead of {w}"
    for a, b in ((s[1], w[1]), (s[2], w[2])):
        if (a is None) != (b is None):
            return f"{s} instead of {w}"
        if a is not None and not np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), rtol=rtol, atol=1e-12):
            return f"{s} instead of {w}"
    return ""


def crs_config(spec, num):
    import confuse
    from . import crs_spec

    geec = load()
    sec = {k: (v if k in ("ref", "name", "vdatum") or v is None or not _numeric(v) else num(v)) for k, v in spec["section"].items()}
    w = crs_spec.expected(sec, geec.crs.Ellipsoid.models)
    c = confuse.Configuration("geec_verif", read=False)
    c.set({"x": {"crs": sec, "points": [[1.0, 2.0, 3.0]], "density": 1.0, "gravity_constant": 1.0}})
    try:
        r = geec.crs.get_crs(c["x"]["crs"]) if spec["via"] == "crs" else geec.dataset.get_dataset(c["x"]).crs
    except confuse.ConfigError as e:
        return "" if w is None else f"crs section {sec} refused: {e}"
    except Exception as e:  # noqa: BLE001
        return f"crs section {sec} raised {e!r}"
    if w is None:
        return f"crs section {sec} accepted: {state(r)}"
    bad = same_state(state(r), w)
    return f"crs section {sec}: {bad}" if bad else ""


def _numeric(v):
    if isinstance(v, (int, float)):
        return True
    import re

    return isinstance(v, str) and re.fullmatch(r"-?\d+(/\d+)?", v) is not None

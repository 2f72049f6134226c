"""Datasets with symbolic coordinates for the coordinate checks (C09 to C11)."""
from types import SimpleNamespace

import numpy as np

from engine import explore, geo, loader, shims, sym as S
from engine.crs_spec import OTHER_PTS, OTHERS
from . import grav as g
from . import rel

VD = {"ellps": None, "egm84": "egm84-15", "egm96": "egm96-5", "egm2008": "egm2008-2_5"}


def load():
    geo.install()
    m = SimpleNamespace()
    m.crs = loader.load("geec.crs")
    m.dataset = loader.load("geec.dataset")
    m.mass = loader.load("geec.mass")
    m.observer = loader.load("geec.observer")
    return m


def coords(npts, tag="p"):
    return g.arr([[S.var(f"{tag}{i}{c}") for c in "xyz"] for i in range(npts)])


def coord_names(npts, tag="p"):
    return [f"{tag}{i}{c}" for i in range(npts) for c in "xyz"]


def ellipsoid(m, ell):
    """wgs84, another model by name, or symbolic axes"""
    if ell == "sym":
        a, b = S.var("ea", positive=True), S.var("eb", positive=True)
        explore.assume(a > b)
        return m.crs.Ellipsoid(semimajor_axis=a, semiminor_axis=b)
    if ell == "wgs84":
        return m.crs.Ellipsoid()
    return m.crs.Ellipsoid(name=ell)


def make_crs(m, kind, ell="wgs84", vdatum="ellps"):
    C = m.crs
    v = C.VDatumEnum(vdatum)
    if kind == "cart":
        return C.CRS(name=C.CRSEnum.CART)
    if kind == "ecef":
        return C.CRS(name=C.CRSEnum.ECEF)
    e = ellipsoid(m, ell)
    if kind == "ellps":
        return C.CRS(name=C.CRSEnum.ELLPS, ellps=e, vdatum=v)
    enu = C.ENU(ellps=e, longitude_origin=S.var("lon0"), latitude_origin=S.var("lat0"), altitude_origin=S.var("h0"))
    return C.CRS(name=C.CRSEnum.ENU, ellps=e, enu=enu, vdatum=v)


def mass_names(via):
    """density and constant of the masses of a list"""
    return [f"{v}{i}" for i in range(len(OTHERS.get(via, ()))) for v in ("den", "con")]


def crs_names(kind, ell, via=""):
    return mass_names(via) + (["lon0", "lat0", "h0"] if kind == "enu" else []) + (["ea", "eb"] if ell == "sym" else [])


RANGES = {"lon0": (-170, 170), "lat0": (-80, 80), "h0": (0, 1000), "ea": (6378000, 6379000), "eb": (6356000, 6357000), "lon1": (-170, 170), "lat1": (-80, 80), "h1": (0, 100)}


def coord_ranges(kind, npts, tag="p", lon=(-170, 170)):
    r = dict(RANGES)
    for i in range(npts):
        if kind == "ellps":
            r[f"{tag}{i}x"], r[f"{tag}{i}y"], r[f"{tag}{i}z"] = lon, (-80, 80), (-500, 3000)
        elif kind == "ecef":
            r[f"{tag}{i}x"], r[f"{tag}{i}y"], r[f"{tag}{i}z"] = (4000000, 5000000), (-2000000, 2000000), (3000000, 4000000)
        else:
            r[f"{tag}{i}x"], r[f"{tag}{i}y"], r[f"{tag}{i}z"] = (-500, 900), (-500, 500), (-300, 300)
    return r


def wrap(m, via, ds):
    """the object whose methods are called, and how: (call, dataset getter)"""
    if via == "dataset":
        return (lambda op, *a: getattr(ds, op)(*a)), (lambda: ds)
    if via == "mass":
        o = m.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)
        return (lambda op, *a: getattr(o, op)(*a)), (lambda: o.dataset)
    if via == "observer":
        o = m.observer.Observer(dataset=ds)
        return (lambda op, *a: getattr(o, op)(*a)), (lambda: o.dataset)
    if via.startswith("masses"):  # module level functions, with other masses around
        kinds = OTHERS[via]
        par = [{"density": S.var(f"den{i}"), "gravity_constant": S.var(f"con{i}")} for i in range(len(kinds))]
        o = m.mass.Mass(**par[kinds.index("o")], dataset=ds)
        k, crs = str(ds.crs.name), ds.crs

        def other(kind, i):
            c = make_crs(m, "cart")
            if kind == "same":
                C = m.crs
                u = None if crs.enu is None else C.ENU(ellps=C.Ellipsoid(), longitude_origin=3.0, latitude_origin=45.0, altitude_origin=10.0)
                c = C.CRS(name=C.CRSEnum(k), ellps=None if crs.ellps is None else C.Ellipsoid(), enu=u, vdatum=crs.vdatum)
            pts = g.arr([[S.lift(v + i) for v in p] for p in OTHER_PTS])
            return m.mass.Mass(**par[i], dataset=m.dataset.Dataset(coords=pts, crs=c))

        lst = [o if x == "o" else other(x, i) for i, x in enumerate(kinds)]
        return (lambda op, *a: getattr(m.mass, op)(lst, *a)), (lambda: o.dataset)
    raise KeyError(via)


def crs_state(m, c):
    """comparable description of a CRS"""
    e = (c.ellps.semimajor_axis, c.ellps.semiminor_axis) if c.ellps is not None else None
    u = None
    if c.enu is not None:
        u = (c.enu.longitude_origin, c.enu.latitude_origin, c.enu.altitude_origin, c.enu.ellps.semimajor_axis, c.enu.ellps.semiminor_axis)
    return str(c.name), e, u, str(c.vdatum)


def state_pairs(a, b, vdatum=True):
    """two CRS descriptions are the same"""
    out = [(a[0] == b[0], f"CRS name {a[0]} / {b[0]}")]
    for x, y, lab in ((a[1], b[1], "ellipsoid"), (a[2], b[2], "ENU origin")):
        out.append(((x is None) == (y is None), lab + " present"))
        if x is not None and y is not None:
            out += [(S.lift(p), S.lift(q), f"{lab}[{i}]") for i, (p, q) in enumerate(zip(x, y))]
    if vdatum:
        out.append((a[3] == b[3], f"vertical datum {a[3]} / {b[3]}"))
    return out


def build_ds(env, kind, npts, ell, vdatum, via, tag="p"):
    return {
        "coords": [[env[f"{tag}{i}{c}"] for c in "xyz"] for i in range(npts)],
        "kind": kind,
        "ell": [env["ea"], env["eb"]] if ell == "sym" else ell,
        "origin": [env["lon0"], env["lat0"], env["h0"]] if kind == "enu" else None,
        "vdatum": vdatum,
        "via": via,
        "masses": [[env[f"den{i}"], env[f"con{i}"]] for i in range(len(OTHERS.get(via, ())))],
    }

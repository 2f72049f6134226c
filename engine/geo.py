"""Contracts of pymap3d and pygeodesy for the symbolic execution of the coordinate code.

pymap3d conversions are uninterpreted functions of (coordinates, ellipsoid axes[, origin])
with the inverse laws
    ecef2geodetic(geodetic2ecef(p, ell), ell) = p      (coordinates in their usual range)
    geodetic2ecef(ecef2geodetic(x, ell), ell) = x
    ecef2enu(enu2ecef(v, o, ell), o, ell) = v          and the other way round
and the compositions geodetic2enu = ecef2enu . geodetic2ecef, enu2geodetic likewise.
The Ellipsoid class is pymap3d's own source.  A geoid is an uninterpreted function of
(lat, lon), one per file name.
"""
from __future__ import annotations

import os
import sys
import types

import numpy as _np

from . import loader, shims, sym as S

lift = S.lift


def _exec(path, name):
    import ast
    import builtins

    with open(path, encoding="utf-8") as f:
        src = f.read()
    tree = ast.fix_missing_locations(loader.Rewrite().visit(ast.parse(src, path)))
    m = types.ModuleType(name)
    b = dict(vars(builtins))
    b["__import__"] = loader._import
    b.update(loader.HELPERS)
    m.__dict__["__builtins__"] = b
    m.__file__ = path
    sys.modules[name] = m
    exec(compile(tree, path, "exec", dont_inherit=True), m.__dict__)
    return m


def _eq(a, b):
    return all(S.is_zero(lift(x) - lift(y)) for x, y in zip(a, b))


G2E, ENU = [], []  # [(inputs, outputs)]


def _find_out(tab, out, par):
    """inputs whose outputs are `out`, for the same parameters"""
    for i, p, o in tab:
        if _eq(o, out) and _eq(p, par):
            return i
    return None


def _find_in(tab, inp, par):
    for i, p, o in tab:
        if _eq(i, inp) and _eq(p, par):
            return o
    return None


def g2e(lat, lon, alt, a, b):
    """ECEF coordinates of one point"""
    par = (a, b)
    r = _find_in(G2E, (lat, lon, alt), par)
    if r is None:
        r = tuple(S.uf("g2e_" + c, lat, lon, alt, a, b) for c in "xyz")
        G2E.append(((lat, lon, alt), par, r))
    return r


def e2g(x, y, z, a, b):
    par = (a, b)
    r = _find_out(G2E, (x, y, z), par)
    if r is None:
        r = tuple(S.uf("e2g_" + c, x, y, z, a, b) for c in ("lat", "lon", "alt"))
        G2E.append((r, par, (x, y, z)))
    return r


def n2e(e, n, u, lat0, lon0, h0, a, b):
    """ENU to ECEF"""
    par = (lat0, lon0, h0, a, b)
    r = _find_in(ENU, (e, n, u), par)
    if r is None:
        r = tuple(S.uf("n2e_" + c, e, n, u, lat0, lon0, h0, a, b) for c in "xyz")
        ENU.append(((e, n, u), par, r))
    return r


def e2n(x, y, z, lat0, lon0, h0, a, b):
    par = (lat0, lon0, h0, a, b)
    r = _find_out(ENU, (x, y, z), par)
    if r is None:
        r = tuple(S.uf("e2n_" + c, x, y, z, lat0, lon0, h0, a, b) for c in "enu")
        ENU.append((r, par, (x, y, z)))
    return r


def _numeric():
    import pymap3d as pm

    def ell(a, b):
        return pm.Ellipsoid(a, b)

    def ok(a, b):
        return a >= b > 0

    for i, c in enumerate("xyz"):
        S.FLOAT_FN["g2e_" + c] = lambda lat, lon, alt, a, b, i=i: pm.geodetic2ecef(lat, lon, alt, ell=ell(a, b))[i]
        S.FLOAT_FN["n2e_" + c] = lambda e, n, u, lat0, lon0, h0, a, b, i=i: pm.enu2ecef(e, n, u, lat0, lon0, h0, ell=ell(a, b))[i]
    for i, c in enumerate(("lat", "lon", "alt")):
        S.FLOAT_FN["e2g_" + c] = lambda x, y, z, a, b, i=i: pm.ecef2geodetic(x, y, z, ell=ell(a, b))[i]
    for i, c in enumerate("enu"):
        S.FLOAT_FN["e2n_" + c] = lambda x, y, z, lat0, lon0, h0, a, b, i=i: pm.ecef2enu(x, y, z, lat0, lon0, h0, ell=ell(a, b))[i]
    for k, (p, q, r) in {"egm84-15": (3, 5, 7), "egm96-5": (2, 9, 4), "egm2008-2_5": (6, 1, 8)}.items():
        S.FLOAT_FN["geoid_" + k] = lambda lat, lon, p=p, q=q, r=r: p * _np.sin(lat / q) + r * _np.cos(lon / 3)


def _vec(f, n_out, *args):
    """apply f to scalars or columns"""
    arrs = [_np.asarray(a, dtype=object) if isinstance(a, (_np.ndarray, list, tuple)) else a for a in args]
    shape = _np.broadcast_shapes(*[a.shape for a in arrs if isinstance(a, _np.ndarray)]) if any(isinstance(a, _np.ndarray) for a in arrs) else None
    if shape is None:
        return f(*[lift(a) for a in args])
    outs = [_np.empty(shape, dtype=object) for _ in range(n_out)]
    full = [_np.broadcast_to(a, shape) if isinstance(a, _np.ndarray) else a for a in arrs]
    for ix in _np.ndindex(*shape):
        r = f(*[lift(a[ix]) if isinstance(a, _np.ndarray) else lift(a) for a in full])
        for o, v in zip(outs, r):
            o[ix] = v
    return tuple(o.view(shims.SymArray) for o in outs)


def _deg(deg, *xs):
    if deg:
        return xs
    return tuple(lift(x).degrees() if not isinstance(x, _np.ndarray) else shims._map(lambda v: lift(v).degrees(), x) for x in xs)


def _rad(deg, *xs):
    if deg:
        return xs
    return tuple(lift(x).radians() if not isinstance(x, _np.ndarray) else shims._map(lambda v: lift(v).radians(), x) for x in xs)


def make_pymap3d():
    import pymap3d as real

    mod = types.ModuleType("pymap3d")
    em = _exec(os.path.join(os.path.dirname(real.__file__), "ellipsoid.py"), "geec_verif_ellipsoid")
    Ell = em.Ellipsoid
    mod.Ellipsoid = Ell

    def axes(ell):
        if ell is None:
            m = Ell.models["wgs84"]
            return lift(m["a"]), lift(m["b"])
        return lift(ell.semimajor_axis), lift(ell.semiminor_axis)

    def geodetic2ecef(lat, lon, alt, ell=None, deg=True):
        a, b = axes(ell)
        lat, lon = _deg(deg, lat, lon)
        return _vec(lambda p, q, r: g2e(p, q, r, a, b), 3, lat, lon, alt)

    def ecef2geodetic(x, y, z, ell=None, deg=True):
        a, b = axes(ell)
        lat, lon, alt = _vec(lambda p, q, r: e2g(p, q, r, a, b), 3, x, y, z)
        return (*_rad(deg, lat, lon), alt)

    def enu2ecef(e1, n1, u1, lat0, lon0, h0, ell=None, deg=True):
        a, b = axes(ell)
        lat0, lon0 = _deg(deg, lat0, lon0)
        return _vec(lambda e, n, u, p, q, r: n2e(e, n, u, p, q, r, a, b), 3, e1, n1, u1, lat0, lon0, h0)

    def ecef2enu(x, y, z, lat0, lon0, h0, ell=None, deg=True):
        a, b = axes(ell)
        lat0, lon0 = _deg(deg, lat0, lon0)
        return _vec(lambda x, y, z, p, q, r: e2n(x, y, z, p, q, r, a, b), 3, x, y, z, lat0, lon0, h0)

    def geodetic2enu(lat, lon, h, lat0, lon0, h0, ell=None, deg=True):
        x, y, z = geodetic2ecef(lat, lon, h, ell, deg)
        return ecef2enu(x, y, z, lat0, lon0, h0, ell, deg)

    def enu2geodetic(e, n, u, lat0, lon0, h0, ell=None, deg=True):
        x, y, z = enu2ecef(e, n, u, lat0, lon0, h0, ell, deg)
        return ecef2geodetic(x, y, z, ell, deg)

    for f in (geodetic2ecef, ecef2geodetic, enu2ecef, ecef2enu, geodetic2enu, enu2geodetic):
        setattr(mod, f.__name__, f)
    mod.ellipsoid = em
    mod.enu = mod.ecef = mod

    def missing(k):
        raise S.Unsupported(f"pymap3d.{k}")

    mod.__getattr__ = missing
    return mod


class LatLon:
    def __init__(self, lat, lon=None, height=0, *a, **k):
        self.lat, self.lon, self.height = lat, lon, height
        self.latlon = (lat, lon)


class GeoidKarney:
    def __init__(self, egm_pgm, *a, **k):
        self.name = os.path.basename(str(egm_pgm)).rsplit(".", 1)[0]

    def _h(self, lat, lon):
        return S.uf("geoid_" + self.name, lift(lat), lift(lon))

    def __call__(self, *llis, **wrap):
        if len(llis) == 1 and isinstance(llis[0], (list, tuple)):
            return [self._h(p.lat, p.lon) for p in llis[0]]
        if len(llis) == 1:
            return self._h(llis[0].lat, llis[0].lon)
        return tuple(self._h(p.lat, p.lon) for p in llis)

    def height(self, lats, lons, **wrap):
        if isinstance(lats, (list, tuple, _np.ndarray)):
            return [self._h(a, b) for a, b in zip(lats, lons)]
        return self._h(lats, lons)


def make_pygeodesy():
    mod = types.ModuleType("pygeodesy")
    mod.GeoidKarney = GeoidKarney
    mod.ellipsoidalKarney = types.SimpleNamespace(LatLon=LatLon)
    mod.geoids = types.SimpleNamespace(GeoidKarney=GeoidKarney)

    def missing(k):
        raise S.Unsupported(f"pygeodesy.{k}")

    mod.__getattr__ = missing
    return mod


def install():
    """call before loading geec.crs"""
    _numeric()
    G2E.clear()
    ENU.clear()
    loader.EXTRA["pymap3d"] = make_pymap3d()
    loader.EXTRA["pygeodesy"] = make_pygeodesy()
    return loader.EXTRA["pymap3d"]

"""Layers of configuration read by the unpatched code."""
import math
import os
import shutil
import tempfile

from . import geo_replay, layers as ly, read_replay


def config_layers(spec, num):
    tmp = tempfile.mkdtemp(prefix="geec_c16_")
    try:
        return _layers(spec, num, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _layers(spec, num, tmp):
    import confuse
    import yaml

    geec = geo_replay.load()
    import geec.config

    env = num(spec["env"])
    D, U = (ly.fill(spec[k], env.get) for k in ("userdir", "userfile"))
    path = ly.write(tmp, lambda d: yaml.safe_dump(d, sort_keys=False), D, U)
    pk = ly.package(os.path.dirname(os.path.dirname(os.path.abspath(geec.__file__))))
    L = [x for x in (U, D, pk) if x is not None]
    models = geec.crs.Ellipsoid.models
    tag = f"user's directory {D} user's file {U}: "
    refused = (confuse.ConfigError, FileNotFoundError, TypeError)
    want = [ly.dataset(L, ("masses", i), models) for i in range(ly.mass_count(L))]
    nums = [(ly.look(L, "masses", i, "density"), ly.look(L, "masses", i, "gravity_constant")) for i in range(len(want))]
    refuse = any(w is None for w in want) or any(x is ly.MISSING or x is None for p in nums for x in p)
    try:
        ms = geec.mass.get_masses(geec.config.setup(path))
        if refuse:
            return tag + "accepted"
    except Exception as e:  # noqa: BLE001
        if not ((refuse or any(ly.loose(L, ("masses", i)) for i in range(len(want)))) and isinstance(e, refused)):
            return tag + f"raised {e!r}"
        ms = None
    if ms is not None:
        if len(ms) != len(want):
            return tag + f"{len(ms)} masses"
        for i, (g, w, (rho, Gc)) in enumerate(zip(ms, want, nums)):
            if not (math.isclose(g.density, rho, rel_tol=1e-12) and math.isclose(g.gravity_constant, Gc, rel_tol=1e-12)):
                return tag + f"mass {i}: density {g.density} constant {g.gravity_constant} instead of {rho} {Gc}"
            bad = read_replay.close(f"mass {i}", g.dataset.coords, w[0]) or geo_replay.same_state(geo_replay.state(g.dataset.crs), w[1])
            if bad:
                return tag + bad
    w = ly.dataset(L, ("observers",), models)
    if w is None and not ly.look(L, "observers", "points"):
        return ""
    try:
        ob = geec.observer.get_observer(geec.config.setup(path))
        if w is None:
            return tag + "observers accepted"
    except Exception as e:  # noqa: BLE001
        return "" if (w is None or ly.loose(L, ("observers",))) and isinstance(e, refused) else tag + f"raised {e!r}"
    bad = read_replay.close("stations", ob.dataset.coords, w[0]) or geo_replay.same_state(geo_replay.state(ob.dataset.crs), w[1])
    return tag + bad if bad else ""

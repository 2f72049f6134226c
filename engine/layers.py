"""Layered configurations: what a setting is, given the layers that may set it.
A layer is a nested dict/list whose numbers may be "$name" (a symbol, or its value)."""
import os

from . import crs_spec

MISSING = object()
CRS_KEYS = ("ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin", "vdatum")


def fill(v, val):
    if isinstance(v, str) and v.startswith("$"):
        return val(v[1:])
    if isinstance(v, dict):
        return {k: fill(x, val) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [fill(x, val) for x in v]
    return v


def names(v):
    if isinstance(v, str):
        return [v[1:]] if v.startswith("$") else []
    if isinstance(v, dict):
        return [n for x in v.values() for n in names(x)]
    if isinstance(v, (list, tuple)):
        return [n for x in v for n in names(x)]
    return []


def look(layers, *path):
    """value of the highest layer that has it"""
    for L in layers:
        for k in path:
            try:
                L = L[k]
            except (KeyError, IndexError, TypeError):
                break
        else:
            return L
    return MISSING


def mass_count(layers):
    return len(look(layers, "masses"))


def dataset(layers, base, models):
    """(points, crs description) or None where the configuration must be refused"""
    pts = look(layers, *base, "points")
    if pts is MISSING or not pts:
        return None
    sec = {}
    for k in CRS_KEYS:
        v = look(layers, *base, "crs", k)
        if v is not MISSING:
            sec[k] = v
    w = crs_spec.expected(sec, models)
    return None if w is None else (pts, w)


def loose(layers, base):
    """a key of the reference system that no layer has: whether it counts as empty or is
    refused is left open"""
    return any(look(layers, *base, "crs", k) is MISSING for k in CRS_KEYS)


def write(tmp, dump, userdir, userfile):
    """lays the files out under tmp; returns the path of the user's file or ''"""
    for k in ("GEECDIR", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS"):
        os.environ.pop(k, None)
    os.environ["HOME"] = tmp
    d = os.path.join(tmp, ".config", "geec")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.yaml")
    if os.path.exists(p):
        os.remove(p)
    if userdir is not None:
        with open(p, "w") as f:
            f.write(dump(userdir))
    if userfile is None:
        return ""
    p = os.path.join(tmp, "mine.yaml")
    with open(p, "w") as f:
        f.write(dump(userfile))
    return p


def package(repo):
    import yaml

    with open(os.path.join(repo, "geec", "cfg", "config_default.yaml"), encoding="utf-8") as f:
        return yaml.safe_load(f)

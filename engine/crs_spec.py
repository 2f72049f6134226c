"""What reference system a 'crs' section describes (numbers or symbols alike)."""
REFS = ("cart", "ellps", "enu", "ecef")
VDATUMS = ("ellps", "egm84", "egm96", "egm2008")

# other masses given to the module level functions beside the one looked at ("o")
OTHERS = {"masses": ("cart", "o"), "masses-first": ("o", "same"), "masses-last": ("same", "o"), "masses-mid": ("cart", "same", "o", "same")}
OTHER_PTS = ((1, 2, 3), (4, 6, 5))



def expected(d, models):
    """None when the section must be refused, else (kind, axes, origin, vertical datum)"""
    ref = d.get("ref")
    ref = "ellps" if ref is None else ref
    if not isinstance(ref, str) or ref.lower() not in REFS:
        return None
    k = ref.lower()
    if k in ("cart", "ecef"):
        return k, None, None, "ellps"
    name = d.get("name")
    if name:
        if name not in models:
            return None
        axes = (models[name]["a"], models[name]["b"])
    elif d.get("semimajor_axis") is not None and d.get("semiminor_axis") is not None:
        axes = (d["semimajor_axis"], d["semiminor_axis"])
    else:
        axes = (models["wgs84"]["a"], models["wgs84"]["b"])
    v = d.get("vdatum")
    v = "ellps" if v is None else v
    if not isinstance(v, str):
        return None
    v = v.lower()
    v = "egm2008" if v == "egm08" else v
    if v not in VDATUMS:
        return None
    if k == "ellps":
        return k, axes, None, v
    org = [d.get(x) for x in ("longitude_origin", "latitude_origin", "altitude_origin")]
    if any(x is None or isinstance(x, str) for x in org):
        return None
    return k, axes, (*org, *axes), v

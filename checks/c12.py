"""C12: the reference system built is the one the configuration describes."""
import itertools

import confuse

from engine import confsym, crs_spec, explore, sym as S
from engine.harness import Case
from . import coord as co
from . import rel

META = {
    "explanation": "get_crs is executed on 'crs' sections with symbolic axes and ENU origin, for every kind, ellipsoid model and vertical datum; the resulting reference system is compared field by field with the one the section describes, and sections that describe none must be refused.",
    "level": "other",
    "assumptions": ["confuse's own lookup code is executed as it is", "real arithmetic", "unknown names are represented by a few strings"],
}

NUM = {"semimajor_axis": "ea", "semiminor_axis": "eb", "longitude_origin": "lon0", "latitude_origin": "lat0", "altitude_origin": "h0"}
RANGES = {**co.RANGES}
KEYS = ("ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin", "vdatum")


def section(d, env=None):
    """'$x' stands for the symbol (or value) x; absent keys are empty"""
    out = {}
    for k in KEYS:
        v = d.get(k)
        if isinstance(v, str) and v.startswith("$"):
            v = S.var(v[1:], positive=v[1:] in ("ea", "eb")) if env is None else env[v[1:]]
        out[k] = v
    return out


def table(rep, rows=(), via="crs"):
    m = co.load()
    confsym.install()
    models = m.crs.Ellipsoid.models
    names = ["ea", "eb", "lon0", "lat0", "h0"]
    for d in rows:
        want = crs_spec.expected(section(d), models)

        def run(d=d):
            sec = section(d)
            if isinstance(sec.get("semimajor_axis"), S.Sym):
                explore.assume(S.var("ea", positive=True) >= S.var("eb", positive=True))
            w = crs_spec.expected(sec, models)
            cfg = confsym.config({"x": {"crs": sec, "points": [[1.0, 2.0, 3.0]], "density": 1.0, "gravity_constant": 1.0}})
            try:
                c = m.crs.get_crs(cfg["x"]["crs"]) if via == "crs" else m.dataset.get_dataset(cfg["x"]).crs
            except confuse.ConfigError as e:
                if w is None:
                    return [(True, "refused")]
                raise AssertionError(f"refused: {e}")
            if w is None:
                return [(False, f"accepted as {c.name}")]
            k, axes, org, v = w
            return co.state_pairs(co.crs_state(m, c), (k, axes, org, v))

        def build(env, d=d):
            return {"scenario": "crs_config", "section": section(d, env), "via": via}

        rel.drive(rep, run, names, build, f"crs section {d}", RANGES)


ORG = dict(longitude_origin="$lon0", latitude_origin="$lat0", altitude_origin="$h0")
AX = dict(semimajor_axis="$ea", semiminor_axis="$eb")
MODELS = "maupertuis plessis everest1830 everest1830m everest1967 airy bessel clarke1866 clarke1878 clarke1860 helmert hayford international1924 krassovsky1940 wgs66 australian international1967 grs67 sa1969 wgs72 grs80 wgs84 wgs84_mean iers1989 iers2003 mercury venus moon mars jupyter io saturn uranus neptune pluto".split()


def model_rows(kinds, names):
    for k, n in itertools.product(kinds, names):
        yield dict(ref=k, name=n, **(ORG if k == "enu" else {}))


def models(rep, kind="ellps"):
    m = co.load()
    table(rep, rows=list(model_rows([kind], list(m.crs.Ellipsoid.models))))


VDS = [None, "ellps", "egm84", "egm96", "egm2008", "EGM96", "Egm84", "EGM2008", "ELLPS", "egm08", "EGM08"]
BADV = ["egm", "egm2020", "geoid", "egm9", "", "wgs84", "egm966", "egm 96", " egm96", "egm84 ", "egm1996", "egm20088", "08", "2008", "ellpsoid", "none"]
KIND = [None, "cart", "ellps", "enu", "ecef", "CART", "ELLPS", "ENU", "ECEF", "Enu", "eCeF", "Cart", "eLLps"]
BADK = ["ell", "wgs84", "cartesian", "", "utm", "en u", "egm96", "ellpsoid", "ellips", "ellpss", "carts", " cart", "enu ", "enux", "xenu", "ecefs", "ece", "1", "none", "null"]
N0 = {"name": "", "semimajor_axis": None}
CASES = [
    Case("kinds", table, "every spelling of the kind, symbolic axes and origin", rows=[dict(ref=k, **AX, **ORG) for k in KIND]),
    Case("kinds-bad", table, "unknown kinds", rows=[dict(ref=k, **AX, **ORG) for k in BADK]),
    Case("vdatum", table, "every vertical datum, ellipsoidal and ENU", rows=[dict(ref=k, vdatum=v, **ORG) for k in ("ellps", "enu", None) for v in VDS]),
    Case("vdatum-bad", table, "unknown vertical datum", rows=[dict(ref=k, vdatum=v, **ORG) for k in ("ellps", "enu") for v in BADV]),
    Case("models", models, "every ellipsoid model by name"),
    Case("models-enu", models, "every ellipsoid model by name, ENU with symbolic origin", kind="enu"),
    Case("models-bad", table, "unknown ellipsoid names", rows=[dict(ref=k, name=n, **ORG, **a) for k in ("ellps", "enu") for n in ("wgs", "WGS84 ", "foo", "ellps", "airy1", "wgs 84", "wgs8", "wgs844", "grs", "a", "model", "models") for a in ({}, AX)]),
    Case("axes", table, "symbolic axes without a name; name and axes; neither", rows=[dict(ref=k, **ORG, **a) for k in ("ellps", "enu", None) for a in ({}, AX, {**AX, "name": "airy"}, {**AX, "name": "wgs84"}, {**AX, "name": ""})]),
    Case("origin", table, "ENU origins with one or more coordinates missing or not a number", rows=[dict(ref="enu", **{**ORG, **x}) for x in ({}, {"longitude_origin": None}, {"latitude_origin": None}, {"altitude_origin": None}, {"latitude_origin": "north"}, {"longitude_origin": 0}, {"altitude_origin": 0, "latitude_origin": 0.0}, {"longitude_origin": None, "latitude_origin": None, "altitude_origin": None})]),
    Case("dataset", table, "through get_dataset", rows=[dict(ref=k, vdatum=v, **a, **ORG) for k in ("cart", "ellps", "enu", "ecef") for v in (None, "egm96") for a in ({}, AX, {"name": "grs80"})], via="dataset"),
]

"""Writes MANIFEST.json (run by hand after editing)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
    "C01": "For every observation point, density and constant (reals) on the listed bodies, and for every tetrahedron with 12 symbolic coordinates. Exact real arithmetic; hull library by contract; distances below the code's own tolerance are outside.",
    "C02": "All nine components for every observation point, density and constant on the listed bodies (a symbolic body is out of reach for the tensor). Exact real arithmetic.",
    "C03": "Any real density and constant, observation point symbolic, listed bodies. Exact real arithmetic.",
    "C04": "Accumulation for arbitrary field values (uninterpreted fields), bounded number of bodies and calls; cut bodies through the real code.",
    "C05": "Histories of bounded length with symbolic observation points and a fault at a symbolic numerical call; comparison with fresh objects. Exact real arithmetic.",
    "C06": "Symbolic translation, scale, rotation about each axis, signed permutations; listed bodies. Exact real arithmetic.",
    "C07": "Tetrahedra with 12 symbolic coordinates and affine images of listed bodies, hull library by contract with facet/vertex orders from the stated family.",
    "C08": "Symbolic observation point and interior points; listed bodies, orders from the stated family; hull library by contract.",
    "C09": "All coordinates as reals, up to 3 points, every coordinate system and entry point.",
    "C10": "All coordinates as reals, geoids as arbitrary functions of position, up to 3 points.",
    "C11": "All coordinates, origins and ellipsoid axes as reals, every conversion sequence up to the stated length; pymap3d by its inverse laws.",
    "C12": "All numeric parameters as reals; the finite sets of names are covered completely, unknown names by representatives.",
    "C13": "All numbers as reals; number of points, masses and grid nodes bounded.",
    "C14": "All coordinates, densities and constants as reals; field of one body an arbitrary function of its points, station, density and constant; pymap3d and pygeodesy by contract; numbers of masses and stations bounded.",
    "C15": "All vectors as reals; batch sizes bounded.",
    "C16": "All numbers in the layers as reals; families of present/absent keys enumerated; YAML parser trusted.",
}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python /verif/run_check.py {i} quick",
            "thorough_cmd": f"/opt/venv/bin/python /verif/run_check.py {i} thorough",
            "technique": "symbolic execution of the repository's Python source over exact reals, assertions decided with z3, counterexamples replayed on the real code",
            "level": "other",
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python /verif/tools/selfcheck.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the source is transformed when it is loaded (engine/loader.py). See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

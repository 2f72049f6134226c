"""C01: attraction of a body equals Newton's law."""
from engine.harness import Case
from . import newton as n

ANY = "observer anywhere in R^3 in general position (3 reals), density and G positive reals"
META = {
    "explanation": "The repository's Polyhedron/Face/Edge code is executed symbolically over exact reals and its result is compared, on every feasible path, with the closed-form Newtonian attraction of the same body; the negated equality is refuted path by path.",
    "level": "other",
    "assumptions": [
        "real arithmetic (no rounding); positions closer to a face plane or edge line than the code's own tolerance are outside",
        "scipy ConvexHull/linprog by contract for symbolic tetrahedra, real scipy for the concrete bodies",
        "closed form of the attraction (validated against numerical integration in engine/oracle.py)",
    ],
}
TET = "4 vertices symbolic (12 reals), observer symbolic (3), density, G > 0; "
CASES = [
    Case("tetra-generic", n.tetra, TET + "observer in general position", budget=500),
    Case("tetra-inplane", n.tetra, TET + "observer in the plane of a face", budget=500, slice_="inplane"),
    Case("tetra-online", n.tetra, TET + "observer on the extension of an edge, first end nearer", budget=500, slice_="online"),
    Case("tetra-online-far", n.tetra, TET + "observer on the extension of an edge, first end farther", budget=500, slice_="online-far"),
    Case("octa", n.body, "octahedron; " + ANY, budget=500, name="octa"),
    Case("cube", n.body, "cube (coplanar triangles); " + ANY, budget=500, name="cube"),
    Case("pyramid", n.body, "square pyramid; " + ANY, budget=500, name="pyramid"),
    Case("cube-plane", n.body, "cube; observer in the plane of a face, outside (2 reals)", budget=300, name="cube", where=(0, 1, 2)),
    Case("octa-near-line", n.body, "octahedron; observer within 1e-4 of the extension of an edge, off it (1 real)", budget=300, name="octa", where=(0, 2), near=(3, (3, -1, 2))),
    Case("octa-near-line-2", n.body, "as octa-near-line, beyond the other end of the edge", budget=300, name="octa", where=(0, 2), near=(-2, (3, -1, 2))),
    Case("tet-near-line-2", n.body, "as tet-near-line, beyond the other end of the edge", budget=300, name="tet", where=(3, 1), near=(3, (1, 2, -3))),
    Case("tet-near-line", n.body, "tetrahedron; observer within 1e-4 of the extension of an edge, off it (1 real)", budget=300, name="tet", where=(3, 1), near=(-2, (1, 2, -3))),
    Case("octa-line", n.body, "octahedron; observer on the extension of an edge (1 real)", budget=300, name="octa", where=(0, 2)),
    Case("prism", n.body, "triangular prism; " + ANY, budget=800, name="prism", tiers=("thorough",)),
    Case("seven", n.body, "irregular 7-vertex body; " + ANY, budget=2400, name="seven", tiers=("thorough",)),
    Case("seven-line", n.body, "7-vertex body; observer on the extension of an edge", budget=800, name="seven", where=(6, 1), tiers=("thorough",)),
    Case("seven-plane", n.body, "7-vertex body; observer in the plane of a face", budget=800, name="seven", where=(0, 1, 2), tiers=("thorough",)),
    Case("tetra-order2", n.tetra, TET + "other facet order of the hull", budget=800, order=((3, 1, 2), (0, 1, 3), (2, 0, 3), (1, 0, 2)), tiers=("thorough",)),
]

"""C02: gradient tensor is the spatial derivative of the attraction."""
from engine.harness import Case
from . import newton as n

ANY = "observer anywhere in R^3 in general position (3 reals), density and G positive reals"
GT = dict(gradient=True, what=("G", "T"))
META = {
    "explanation": "Symbolic execution of the gradient code over exact reals; all nine tensor components are compared on every feasible path with the closed-form derivative of the Newtonian attraction (the closed form is itself shown to be the derivative by the thorough case 'lemma').",
    "level": "other",
    "assumptions": [
        "real arithmetic (no rounding); positions closer to a face plane or edge line than the code's own tolerance are outside",
        "bodies are the listed concrete ones; a fully symbolic body exceeds memory for the tensor",
    ],
}
CASES = [
    Case("pyramid", n.body, "square pyramid; " + ANY, budget=600, name="pyramid", **GT),
    Case("tet", n.body, "irregular tetrahedron; " + ANY, budget=600, name="tet", **GT),
    Case("prism", n.body, "triangular prism; " + ANY, budget=600, name="prism", **GT),
    Case("octa-plane", n.body, "octahedron; observer in the plane of a face, outside (2 reals)", budget=300, name="octa", where=(0, 2, 4), **GT),
    Case("pyramid-plane", n.body, "pyramid; observer in the plane of its base, outside (2 reals)", budget=300, name="pyramid", where=(0, 1, 2), **GT),
    Case("octa-near-line", n.body, "octahedron; observer within 1e-4 of the extension of an edge, off it (1 real)", budget=300, name="octa", where=(0, 2), near=(3, (3, -1, 2)), **GT),
    Case("octa-near-line-2", n.body, "as octa-near-line, beyond the other end of the edge", budget=300, name="octa", where=(0, 2), near=(-2, (3, -1, 2)), **GT),
    Case("tet-near-line-2", n.body, "as tet-near-line, beyond the other end of the edge", budget=300, name="tet", where=(3, 1), near=(3, (1, 2, -3)), **GT),
    Case("tet-near-line", n.body, "tetrahedron; observer within 1e-4 of the extension of an edge, off it (1 real)", budget=300, name="tet", where=(3, 1), near=(-2, (1, 2, -3)), **GT),
    Case("octa-line", n.body, "octahedron; observer on the extension of an edge", budget=300, name="octa", where=(0, 2), **GT),
    Case("pyramid-line", n.body, "pyramid; observer on the extension of a base edge", budget=300, name="pyramid", where=(0, 1), **GT),
    Case("tet-line", n.body, "tetrahedron; observer on the extension of an edge", budget=300, name="tet", where=(3, 1), **GT),
    Case("lemma", n.lemma, "one triangle, 9 symbolic coordinates: specification against automatic differentiation", budget=900, tiers=("thorough",)),
    Case("cube", n.body, "cube; " + ANY, budget=1500, name="cube", tiers=("thorough",), **GT),
    Case("octa", n.body, "octahedron; " + ANY, budget=2400, name="octa", tiers=("thorough",), **GT),
    Case("tet-plane", n.body, "tetrahedron; observer in the plane of a face", budget=300, name="tet", where=(0, 1, 3), tiers=("thorough",), **GT),
    Case("seven-line", n.body, "7-vertex body; observer on the extension of an edge", budget=800, name="seven", where=(6, 1), tiers=("thorough",), **GT),
    Case("seven-plane", n.body, "7-vertex body; observer in the plane of a face", budget=1500, name="seven", where=(0, 1, 2), tiers=("thorough",), **GT),
]

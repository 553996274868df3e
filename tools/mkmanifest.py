"""Write MANIFEST.json from properties.jsonl, the checks present and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
T = {
    "C01": ("generated elements, vertices and functions: duality, count, span and interpolation laws",
            "Every configuration of data/configs.json below a cost limit (about 2/3 of 912 in quick, all in thorough) with random coefficients and affine vertices. Trusts sympy arithmetic and numpy rank."),
    "C02": ("generated functionals and functions against exact polynomial calculus plus Gauss quadrature",
            "All functional classes, entities, weights and vertices generated; smooth and piecewise arguments of degree <= 3. Trusts the reference evaluator vlib/num.py and vlib/geo.py."),
    "C03": ("generated affine cells: push-forward compared with an independent numeric one",
            "Every mappable configuration below a cost limit; orientation-reversing, scaled and sheared cells. Floating comparison at sampled points, tolerance 1e-8 relative."),
    "C04": ("generated pairs of neighbouring cells: numeric traces on the shared facet",
            "Every configuration with declared continuity below a cost limit, generated facet pairings and affine neighbours."),
    "C05": ("generated point lists and layouts against direct evaluation of the basis functions",
            "Generated point lists (duplicates, boundary points, empty) in several number types; all layouts."),
    "C06": ("stateful histories of cache operations, damage and interrupted writes against caching disabled",
            "Generated histories over real elements and private cache directories, child processes stopped in the middle of a write at generated byte counts, damaged files. The kernel's file system semantics (rename) are trusted."),
    "C07": ("generated vertices and query points against an independent exact geometry model",
            "All cell types, exact rational affine vertices in every allowed dimension, exact membership oracle in vlib/geo.py."),
    "C08": ("generated expression programs against an independent exact polynomial model",
            "Expression trees over scalar, vector and matrix functions evaluated exactly in a model that does not use symfem or sympy calculus."),
    "C09": ("generated partitions and piecewise programs against the same program on each piece",
            "Random partitions of the interval, triangle, quadrilateral and tetrahedron, exact comparison piece by piece, integrals by independent quadrature."),
    "C10": ("generated affine maps and fields: inverse, composition and integral identities of each mapping",
            "Random rational maps with both orientations, 1 to 3 dimensions and embedded ones, numeric pull-back oracle."),
    "C11": ("every generator at every order in bounds: numeric span, rank and orthogonality against explicit monomial descriptions",
            "Orders bounded (quick 4 to 6, thorough higher). Gauss quadrature oracle."),
    "C12": ("every rule and size: random polynomials of the guaranteed degree, structure of points and weights",
            "Sizes up to 9 (quick) or 14 (thorough); symbolic rules are compared in 30 digits."),
    "C13": ("generated creation requests, valid and invalid, and add_element histories against a model of the registry",
            "All aliases, cells and orders of the documented registry; generated invalid requests."),
    "C14": ("numeric containment and maximality of declared degree spaces for every configuration",
            "Configurations below a cost limit; containment by numeric span of generated polynomials."),
    "C15": ("every configuration: partition laws of DOF numbering and exact placement of points",
            "Configurations below a cost limit, default and generated vertices."),
    "C16": ("generated members of each space: derivative is a member of the next space; kernel and image dimensions",
            "All listed complexes, orders bounded by cost."),
    "C17": ("element span against an independently written description of the published space",
            "Published spaces coded independently as monomial/polynomial lists; numeric span equality."),
    "C18": ("every factorisable configuration and generated call orders: product of factors against the default basis",
            "Interval, quadrilateral, hexahedron configurations with and without factorisation."),
    "C19": ("stateful call histories with snapshots compared against freshly created objects",
            "Generated sequences of public calls over several objects in one process, compared with a fresh-process-equivalent oracle."),
    "C20": ("every polygon size in bounds: numeric continuity and published values of dual, BC and RBC functions",
            "Polygons with 2 to 8 (quick) or 12 triangles."),
    "C21": ("generated user-defined elements, valid or with one planted defect, against the verdict of element.test()",
            "Generated Lagrange-type, vector-valued and direct elements with mutations of DOFs, entities, mapping and continuity."),
    "C22": ("generated pictures and element diagrams: parsed SVG/TikZ output against the geometry",
            "Random primitives and options; every element's diagram below a cost limit."),
    "C23": ("generated functions: TeX parsed back and compared; every functional's TeX checked structurally",
            "An independent TeX reader for the emitted subset; every configuration below a cost limit."),
    "C24": ("generated operations on basis-function wrappers against the wrapped function",
            "Configurations of every value type with generated operations and operands."),
}  # fmt: skip


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.isfile(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(dict(
                property=i,
                quick_cmd=f"/opt/venv/bin/python -m checks.{i.lower()}",
                thorough_cmd=f"/opt/venv/bin/python -m checks.{i.lower()} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique="property-based testing: " + T[i][0],
                level="exploration",
                level_note=T[i][1],
            ))  # fmt: skip
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c 'from vlib import boot, core, elems; print(len(elems.table()))'",
        checks=checks,
        not_applicable=na,
        notes="All checks are pure Python; they import symfem from /repo's working tree. No hooks are used.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

"""C03: map_to_cell is the push-forward of the basis."""

import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import numpy as np
from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import symfem
from symfem.finite_element import CiarletElement
from symfem.functionals import DotPointEvaluation, PointEvaluation, PointInnerProduct
from symfem.mappings import MappingNotImplemented
from symfem.references import NonDefaultReferenceError

RULE = (
    "a case is (element configuration, affine image of its cell, which of basis/forward/inverse map are "
    "passed explicitly, sampled points); non-trivial if the cell is not the reference cell; the oracle "
    "is the numeric push-forward J, det J of the values of the reference basis"
)


def push(mapping, v, A):
    """v: flat components (n,) or points x n; A: Jacobian (g x t). Returns points x m."""
    t = A.shape[1]
    G = A.T @ A
    det = np.linalg.det(A) if A.shape[0] == t else np.sqrt(np.linalg.det(G))
    K = A @ np.linalg.inv(G)  # J^{-T} (pseudo-inverse transpose)
    if mapping == "identity":
        return v
    if mapping == "l2":
        return v / abs(det)
    if mapping == "covariant":
        return v @ K.T
    if mapping == "contravariant":
        return v @ A.T / det
    M = v.reshape(-1, t, t)
    if mapping == "double_covariant":
        out = np.einsum("ia,pab,jb->pij", K, M, K)
    elif mapping == "double_contravariant":
        out = np.einsum("ia,pab,jb->pij", A, M, A) / det**2
    else:
        raise core.HarnessError(f"unknown mapping {mapping}")
    return out.reshape(len(v), -1)


def mappings_of(e):
    """Declared map of each basis function; None when its DOF cannot be mapped."""
    if isinstance(e, CiarletElement):
        return [d.mapping for d in e.dofs]
    n = e.space_dim
    if type(e).__name__ == "VectorEnrichedGalerkin":
        return ["identity"] * (n - 1) + ["contravariant"]
    if type(e).__name__ == "EnrichedGalerkin":
        return ["identity"] * n
    raise core.HarnessError(f"no declared map known for {type(e).__name__}")


def vertices_form(vs, form):
    if form == 0:
        return tuple(num.RP(v) for v in vs)
    if form == 1:
        return [list(num.RP(v)) for v in vs]
    return tuple(tuple(int(c) if c.denominator == 1 else num.R(c) for c in v) for v in vs)


VALID = {
    "scalar": ["identity", "l2"],
    "vector": ["identity", "covariant", "contravariant"],
    "matrix": ["identity", "double_covariant", "double_contravariant"],
}


def user_element(cell, name, order, kw, maps):
    """An element with the space and DOFs of a built-in Lagrange element, and other mappings."""
    e = elems.get(cell, name, order, kw)
    dofs = []
    for i, d in enumerate(e.dofs):
        m = maps[i % len(maps)]
        if type(d) is PointEvaluation:
            m = VALID["scalar"][m % 2]
            dofs.append(PointEvaluation(e.reference, d.dof_point(), d.entity, mapping=m))
        elif type(d) is DotPointEvaluation and len(e.range_shape or ()) == 2:
            dofs.append(DotPointEvaluation(e.reference, d.dof_point(), d.vector, d.entity, mapping=VALID["matrix"][m % 3]))
        elif type(d) is DotPointEvaluation:
            m = VALID["vector"][m % 3] if len(d.dof_direction()) == e.reference.tdim else "identity"
            dofs.append(DotPointEvaluation(e.reference, d.dof_point(), d.dof_direction(), d.entity, mapping=m))
        elif type(d) is PointInnerProduct:
            dofs.append(PointInnerProduct(e.reference, d.dof_point(), d.lvec, d.rvec, d.entity, mapping=VALID["matrix"][m % 3]))
        else:
            raise core.HarnessError(f"unexpected DOF {type(d).__name__}")

    class UserElement(CiarletElement):
        lagrange_subdegree = polynomial_subdegree = lagrange_superdegree = polynomial_superdegree = order
        names = ["user element"]
        references = [cell]
        continuity = "L2"
        value_type = "scalar"
        last_updated = "never"

    return UserElement(e.reference, order, e.get_polynomial_basis(), dofs, e.domain_dim, e.range_dim, e.range_shape)


def prop(case, ctx):
    cell, name, order, kw = case["cfg"]
    if "maps" in case:
        e = user_element(cell, name, order, kw, case["maps"])
        ctx.label("user-defined")
    else:
        e = elems.get(cell, name, order, kw)
    vs = gen.verts_of(case["map"], cell)
    aff = gen.aff_of(case["map"])
    A = np.array([[float(c) for c in r] for r in aff.A])
    basis = e.get_basis_functions()
    ev0 = num.Ev(basis)
    pts = np.vstack([num.sample_points(cell, 3), np.array([[float(c) for c in geo.interior_point(cell, w)] for w in case["pts"]])])
    before = ev0(pts)
    args = {}
    vin = vertices_form(vs, case["form"])
    if "basis" in case["pass"]:
        args["basis"] = list(basis)
    if "forward" in case["pass"]:
        args["forward_map"] = tuple(e.reference.get_map_to(vin))
    if "inverse" in case["pass"]:
        args["inverse_map"] = tuple(e.reference.get_inverse_map_to(vin))
    declared = mappings_of(e)
    ctx.label(f"cell:{cell}", f"class:{type(e).__name__}", *["map:" + str(m) for m in set(declared)], *["explicit:" + p for p in case["pass"]])
    ctx.label("det>0" if A.shape[0] != A.shape[1] or np.linalg.det(A) > 0 else "det<0")
    mapped = e.map_to_cell(vin, **args)
    check(len(mapped) == e.space_dim, f"map_to_cell gives {len(mapped)} functions for space_dim {e.space_dim}")
    P = aff.np(pts)
    got = num.Ev(mapped)(P)
    if case.get("dual"):
        # derivative DOFs cannot be mapped: the basis of the same element on the new cell
        e2 = symfem.create_element(cell, name, order, vertices=vin, **kw)
        check(len(e2.dofs) == len(e.dofs), "different number of DOFs on the new cell")
        for i, (d, d2) in enumerate(zip(e.dofs, e2.dofs)):
            check(type(d) is type(d2) and tuple(d.entity) == tuple(d2.entity), f"DOF {i} differs in type or entity on the new cell")
            p, q = [num.frac(c) for c in d.dof_point()], [num.frac(c) for c in d2.dof_point()]
            check(tuple(aff(p)) == tuple(q), f"DOF {i} on the new cell is at {q}, the image of its point is {aff(p)}")
        for i, d in enumerate(e2.dofs):
            for j in case["js"]:
                j %= len(mapped)
                v = float(num.raw(d.eval(mapped[j], symbolic=False)))
                check(abs(v - (i == j)) < 1e-8, f"DOF {i} of the new cell gives {v} for mapped function {j}")
                ctx.count()
        check(num.allclose(got, num.Ev(e2.get_basis_functions())(P)), "mapped functions are not the basis on the new cell")
    else:
        for i, m in enumerate(declared):
            want = push(m, before[i], A)
            ctx.count()
            check(got[i].shape == want.shape, f"function {i} has {got[i].shape[1]} components, not {want.shape[1]}")
            check(num.allclose(got[i], want), f"function {i} mapped by {m}: {got[i].ravel()[:4]} but the push-forward is {want.ravel()[:4]}")
        if case["same"]:
            back = num.Ev(e.map_to_cell(tuple(geo.DEFAULT[cell])))(pts)
            check(num.allclose(back, before), "mapping to the reference cell changes the basis")
    check(num.allclose(num.Ev(e.get_basis_functions())(pts), before, 1e-13), "map_to_cell changed the element's basis")


@st.composite
def cases(draw, cfg, dual, gdim=None):
    cell = cfg[0]
    t = geo.TDIM[cell]
    return {
        "cfg": cfg, "map": draw(gen.affine(t, gdim, draw(st.sampled_from([None, 1, -1])))),
        "pass": draw(st.lists(st.sampled_from(["basis", "forward", "inverse"]), unique=True)),
        "form": draw(st.integers(0, 2)), "pts": [draw(gen.weights(cell)) for _ in range(2)],
        "same": draw(st.booleans()), "dual": dual, "js": [draw(st.integers(0, 50)), draw(st.integers(0, 50))],
    }  # fmt: skip


@st.composite
def user_cases(draw, cfg, gdim=None):
    c = draw(cases(cfg, False, gdim))
    c["maps"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4))
    return c


USER = [("interval", "Lagrange", 2), ("triangle", "Lagrange", 2), ("tetrahedron", "Lagrange", 1), ("quadrilateral", "Q", 1), ("hexahedron", "Q", 1), ("prism", "Lagrange", 1),
        ("triangle", "vector Lagrange", 1), ("tetrahedron", "vector Lagrange", 1), ("quadrilateral", "vector Q", 1), ("hexahedron", "vector dPc", 1),
        ("triangle", "matrix Lagrange", 1), ("tetrahedron", "matrix Lagrange", 0)]  # fmt: skip


def refuses(case, ctx):
    """Elements that can neither be mapped nor made on other cells say so."""
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    ctx.label("refused")
    try:
        m = e.map_to_cell(tuple(num.RP(v) for v in gen.verts_of(case["map"], cell)))
    except (NonDefaultReferenceError, MappingNotImplemented):
        return
    check(len(m) == e.space_dim, "wrong number of mapped functions")
    prop({**case, "pass": [], "form": 0, "pts": [[1] * len(geo.DEFAULT[cell])] * 2, "same": False, "js": [0, 1]}, ctx)


def make_groups(tier, seed):
    out = []
    lim = 0.8 if tier == "quick" else 1e9
    for r in elems.table():
        c = elems.cfg(r)
        mp = r["mapto"]
        if not isinstance(mp, float):
            if r["cost"] < lim:
                out.append(Group(f"refuses/{elems.cfg_name(c)}", refuses, st.fixed_dictionaries({"cfg": st.just(c), "map": gen.affine(geo.TDIM[c[0]]), "dual": st.just("None" in r["map"])}), 2, r["cost"]))
            continue
        if r["cost"] + mp > lim:
            continue
        dual = r["map"] != "direct" and "None" in r["map"]
        n = (3 if r["cost"] + mp < 0.1 else 2) if tier == "quick" else (25 if r["cost"] + mp < 0.5 else 5)
        out.append(Group(f"map/{elems.cfg_name(c)}", prop, cases(c, dual), n, r["cost"] + mp * n))
        if c[0] == "quadrilateral" and not dual and r["map"] != "direct" and r["cost"] < 0.1:
            out.append(Group(f"embedded/{elems.cfg_name(c)}", prop, cases(c, False, 3), 2 if tier == "quick" else 10, r["cost"] + mp * n))
    for cell, name, order in USER:
        c = [cell, name, order, {}]
        out.append(Group(f"user/{elems.cfg_name(c)}", prop, user_cases(c), 6 if tier == "quick" else 100, 4))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C03", make_groups, RULE))

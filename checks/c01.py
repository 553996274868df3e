"""C01: duality, span and interpolation."""

import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import sympy

from symfem.finite_element import CiarletElement
from symfem.functions import parse_function_input

RULE = (
    "a case is (family, cell, order, variant, vertices or default, random coefficients); non-trivial "
    "if the element has more than one DOF; a violation needs dof_i(sum c_j phi_j) != c_i, a polynomial "
    "of the set that its DOF values do not reproduce, or counts that disagree"
)


def combine(funcs, coefs):
    """sum c_j f_j, expanded when it is not piecewise."""
    if any(num.pieces(f) is not None for f in funcs):
        out = funcs[0] * num.R(coefs[0])
        for f, c in zip(funcs[1:], coefs[1:]):
            out = out + f * num.R(c)
        return out
    tot = None
    for f, c in zip(funcs, coefs):
        sh, fl = num.shape_and_flat(f)
        terms = [num.R(c) * e for e in fl]
        tot = terms if tot is None else [a + b for a, b in zip(tot, terms)]
    tot = [sympy.expand(e) for e in tot]
    if all(e.is_polynomial(*num.X) for e in tot) and any(n.is_irrational for e in tot for n in e.atoms(sympy.Pow) if n.is_number):
        # nested roots make the exact integrals very slow: 30 digits instead
        tot = [e.evalf(30) for e in tot]
    return rebuild(sh, tot)


def rebuild(sh, flat):
    if sh[0] == "scalar":
        return parse_function_input(flat[0])
    if sh[0] == "vector":
        return parse_function_input(tuple(flat))
    return parse_function_input(
        tuple(tuple(flat[i * sh[2] + j] for j in range(sh[2])) for i in range(sh[1]))
    )


def is_value(got, want):
    got = num.raw(got)
    d = sympy.expand(got - want)
    if d == 0:
        return True
    return abs(complex(d.evalf(30))) < 1e-9 * max(1, abs(float(want)))


def coefs_for(case, n):
    c = case["coefs"]
    return [c[i % len(c)] * (1 + i // len(c)) for i in range(n)]


def prop(case, ctx):
    cell, name, order, kw = case["cfg"]
    vs = None
    if case.get("map"):
        vs = tuple(num.RP(p) for p in gen.verts_of(case["map"], cell))
        ctx.label("custom vertices")
    e = elems.get(cell, name, order, kw, vs)
    basis = e.get_basis_functions()
    ctx.label(f"cell:{cell}", f"class:{type(e).__name__}")
    check(len(basis) == e.space_dim, f"{len(basis)} basis functions but space_dim is {e.space_dim}")
    if not isinstance(e, CiarletElement):
        ctx.trivial("no DOFs to be dual to")
        return
    check(len(e.dofs) == e.space_dim, f"{len(e.dofs)} DOFs but space_dim is {e.space_dim}")
    poly = e.get_polynomial_basis()
    check(len(poly) == e.space_dim, f"{len(poly)} polynomials but space_dim is {e.space_dim}")
    n = e.space_dim
    if n < 2:
        ctx.trivial("one DOF")
    cs = coefs_for(case, n)
    # duality on a random member written in the basis
    f = combine(basis, cs)
    for i, d in enumerate(e.dofs):
        got = d.eval(f)
        ctx.count()
        check(is_value(got, cs[i]), f"DOF {i} of {elems.cfg_name(case['cfg'])} gives {got} for the combination of basis functions with coefficient {cs[i]}")
    # interpolation of a random member written in the polynomial set
    cs = cs[::-1]
    p = combine(poly, cs)
    vals = [num.raw(d.eval(p)) for d in e.dofs]
    if vs is None:
        pts = num.sample_points(cell, 7)
    else:
        pts = gen.aff_of(case["map"]).np(num.sample_points(cell, 7))
    lam = num.lam if vs is None else num.lam_mp  # badly scaled monomials on other cells
    B = num.Ev(basis, lam=lam)(pts)
    P = num.Ev([p], lam=lam)(pts)[0]
    import numpy as np

    v = np.array([float(i) for i in vals])
    got = np.tensordot(v, B, axes=(0, 0))
    scale = max(1.0, float(np.abs(v).max()) * float(np.abs(B).max()))
    check(num.allclose(got / scale, P / scale), f"interpolant of a member of the polynomial set differs from it: {got.ravel()[:4]} {P.ravel()[:4]}")
    # same dimension of both spans
    if case.get("rank") and vs is None:
        pts = num.sample_points(cell, 3 * n)
        rb = num.rank(num.Ev(basis)(pts).reshape(n, -1), 1e-11)
        check(rb == n, f"basis functions span a space of dimension {rb}, not {n}")
        ctx.count()


@st.composite
def cases(draw, cfg, dim, mapped):
    k = min(max(dim, 1), 12)
    coefs = draw(st.lists(st.integers(1, 9).flatmap(lambda i: st.sampled_from([i, -i])), min_size=k, max_size=k))
    c = {"cfg": cfg, "coefs": coefs, "map": None, "rank": dim <= 40}
    if mapped:
        c["map"] = draw(gen.affine(geo.TDIM[cfg[0]]))
    return c


SINGULAR = [
    ["quadrilateral", "vector Q", 3, {"variant": "lobatto"}],
    ["triangle", "matrix Lagrange", 1, {"variant": "legendre"}],
    ["triangle", "symmetric matrix Lagrange", 1, {"variant": "legendre"}],
    ["triangle", "Crouzeix-Raviart", 2, {"variant": "equispaced"}],
    ["triangle", "bubble enriched Lagrange", 3, {"variant": "equispaced"}],
    ["triangle", "bubble enriched vector Lagrange", 3, {"variant": "equispaced"}],
]


def make_groups(tier, seed):
    out = []
    lim = 1.0 if tier == "quick" else 1e9
    for r in elems.select(lim):
        c = elems.cfg(r)
        n = 2 if r["cost"] < 0.1 else 1
        if tier == "thorough":
            n = 12 if r["cost"] < 0.5 else 3
        out.append(Group(f"default/{elems.cfg_name(c)}", prop, cases(c, r["dim"], False), n, r["cost"] * (1 + n)))
        if isinstance(r["verts"], float) and r["verts"] <= lim and r["doft"]:
            n = 1 if tier == "quick" else 6
            out.append(Group(f"mapped/{elems.cfg_name(c)}", prop, cases(c, r["dim"], True), n, r["verts"] * (1 + n)))
    for c in SINGULAR:
        out.append(Group(f"singular/{elems.cfg_name(c)}", prop, [{"cfg": c, "coefs": [1, 2, 3], "map": None}], 1, 0.5))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C01", make_groups, RULE))

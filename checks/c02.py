"""C02: every functional computes the linear functional it documents."""

import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import numpy as np
from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import sympy

import symfem
import symfem.functionals as FL
from symfem.finite_element import CiarletElement
from symfem.functions import parse_function_input
from symfem.piecewise_functions import PiecewiseFunction

RULE = (
    "a case is a functional class with generated arguments (cell, vertices, entity, point, weight, "
    "direction) and one or two generated functions (polynomial or piecewise); non-trivial if the "
    "function is not identically zero on the entity; the oracle is exact polynomial calculus plus "
    "Gauss quadrature on the sub-entity, independent of symfem's symbolic integration"
)
CELLS = ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism", "pyramid"]
PT = ["PointEvaluation", "WeightedPointEvaluation", "DerivativePointEvaluation", "PointDirectionalDerivativeEvaluation",
      "PointNormalDerivativeEvaluation", "PointComponentSecondDerivativeEvaluation", "PointInnerProduct",
      "DotPointEvaluation", "PointDivergenceEvaluation"]  # fmt: skip
INT = ["IntegralAgainst", "IntegralOfDivergenceAgainst", "IntegralOfDirectionalMultiderivative", "IntegralMoment",
       "DerivativeIntegralMoment", "DivergenceIntegralMoment", "TangentIntegralMoment", "NormalIntegralMoment",
       "NormalDerivativeIntegralMoment", "InnerProductIntegralMoment", "NormalInnerProductIntegralMoment"]  # fmt: skip


# ------------------------------------------------------------------ numeric calculus on exact polynomials
def pev(p, pts):
    """polynomial dict at float points"""
    pts = np.asarray(pts, dtype=float)
    out = np.zeros(len(pts))
    for m, c in p.items():
        t = np.full(len(pts), float(c))
        for i, e in enumerate(m):
            if e:
                t = t * pts[:, i] ** e
        out += t
    return out


class Fn:
    """Generated function: components as exact polynomials, optionally on pieces."""

    def __init__(self, spec):
        self.kind = spec["kind"]
        self.rows = spec.get("rows", 1)
        self.cols = spec.get("cols", 1)
        self.pieces = [(None if q["verts"] is None else [geo.FV(v) for v in q["verts"]], [gen.pd(p) for p in q["comp"]]) for q in spec["pieces"]]
        self.tdim = spec.get("tdim")

    def wrap(self, flat):
        if self.kind == "scalar":
            return flat[0]
        if self.kind == "vector":
            return tuple(flat)
        return tuple(tuple(flat[i * self.cols + j] for j in range(self.cols)) for i in range(self.rows))

    def symfem(self):
        if len(self.pieces) == 1 and self.pieces[0][0] is None:
            return parse_function_input(self.wrap([num.pto_sympy(p) for p in self.pieces[0][1]]))
        return PiecewiseFunction(
            {tuple(num.RP(v) for v in vs): self.wrap([num.pto_sympy(p) for p in comp]) for vs, comp in self.pieces},
            self.tdim,
        )

    def comp_at(self, pts, op=lambda comp: comp):
        """Values [component][point] of op applied to the piece containing each point."""
        pts = np.asarray(pts, dtype=float)
        if self.pieces[0][0] is None:
            return np.array([pev(p, pts) for p in op(self.pieces[0][1])])
        out = None
        done = np.zeros(len(pts), dtype=bool)
        for vs, comp in self.pieces:
            cell = geo.cell_by_nverts(len(vs[0]), len(vs))
            m = np.array([num._in_float(cell, vs, p) for p in pts]) & ~done
            v = np.array([pev(p, pts) for p in op(comp)])
            if out is None:
                out = np.zeros_like(v)
            out[:, m] = v[:, m]
            done |= m
        check(done.all(), "harness: point in no piece")
        return out


def grad(comp):
    return [num.pdiff(comp[0], i) for i in range(3)]


def div(comp):
    out = {}
    for i, c in enumerate(comp):
        out = num.padd(out, num.pdiff(c, i))
    return [out]


def multi(comp, alpha):
    p = comp[0]
    for i, k in enumerate(alpha):
        for _ in range(k):
            p = num.pdiff(p, i)
    return [p]


def along(comp, d):
    out = {}
    for i, c in enumerate(d):
        if c:
            out = num.padd(out, num.pdiff(comp[0], i), geo.F(c))
    return [out]


def entity_verts(verts, cell, ent):
    return [verts[i] for i in geo.entities(cell, ent[0])[ent[1]]]


def ecell(cell, ent):
    return geo.cell_by_nverts(ent[0], len(geo.entities(cell, ent[0])[ent[1]]))


def fl(v):
    return np.array([float(geo.F(i)) for i in v])


def jac(verts, cell):
    v = [fl(p) for p in verts]
    ax = np.array([v[i] - v[0] for i in geo.AXES[cell]])
    return float(np.sqrt(abs(np.linalg.det(ax @ ax.T))))


def tangent(verts):
    d = fl(verts[1]) - fl(verts[0])
    return d / np.linalg.norm(d)


def normal(verts, cell):
    v = [fl(p) for p in verts]
    ax = [v[i] - v[0] for i in geo.AXES[cell]]
    n = np.array([-ax[0][1], ax[0][0]]) if len(ax) == 1 else np.cross(ax[0], ax[1])
    return n / np.linalg.norm(n)


def nx(p):
    return {m: c for m, c in p.items()}


def quad_entity(verts, cell, ent, pieces):
    """Quadrature on the entity, composite over the parts cut by the pieces (given as a refinement)."""
    ev = entity_verts(verts, cell, ent)
    ec = ecell(cell, ent)
    if not pieces or ent[0] < geo.TDIM[cell]:
        return geo.quad_on(ev, ec, 10)
    P, W, L = [], [], []
    aff = geo.Affine.from_vertices(ec, ev).inverse()
    for vs in pieces:
        c = geo.cell_by_nverts(len(vs[0]), len(vs))
        p, w, _ = geo.quad_on(vs, c, 10)
        P.append(p), W.append(w), L.append(aff.np(p))
    return np.concatenate(P), np.concatenate(W), np.concatenate(L)


# ------------------------------------------------------------------ one functional from a case
def build(case):
    cell = case["cell"]
    verts = gen.verts_of(case["map"], cell) if case["map"] else tuple(geo.FV(v) for v in geo.DEFAULT[cell])
    ref = symfem.create_reference(cell, tuple(num.RP(v) for v in verts)) if case["map"] else symfem.create_reference(cell)
    ent = tuple(case["ent"])
    cls = getattr(FL, case["cls"])
    g = len(verts[0])
    a = case["arg"]
    mp = {"mapping": case["mapping"]} if case.get("mapping") else {}
    pt = geo.Affine.from_vertices(ecell(cell, ent), entity_verts(verts, cell, ent))(geo.interior_point(ecell(cell, ent), a["w"])) if ent[0] else entity_verts(verts, cell, ent)[0]
    spt = num.RP(pt)
    X = num.X
    q = gen.psym(a["q"]) if "q" in a else None
    vec = lambda v: tuple(num.R(i) for i in v[:g])
    n = case["cls"]
    if n == "PointEvaluation":
        return cls(ref, spt, entity=ent, **mp), verts, pt, ref
    if n == "WeightedPointEvaluation":
        return cls(ref, spt, num.R(a["c"]), entity=ent, **mp), verts, pt, ref
    if n == "DerivativePointEvaluation":
        return cls(ref, spt, tuple(a["alpha"][:g]), entity=ent), verts, pt, ref
    if n == "PointDirectionalDerivativeEvaluation":
        return cls(ref, spt, vec(a["d"]), entity=ent, **mp), verts, pt, ref
    if n == "PointNormalDerivativeEvaluation":
        return cls(ref, spt, ref.sub_entity(*ent), entity=ent, **mp), verts, pt, ref
    if n == "PointComponentSecondDerivativeEvaluation":
        return cls(ref, spt, tuple(i % g for i in a["ij"]), entity=ent, **mp), verts, pt, ref
    if n == "PointInnerProduct":
        return cls(ref, spt, vec(a["d"]), vec(a["e"]), entity=ent, **mp), verts, pt, ref
    if n == "DotPointEvaluation":
        return cls(ref, spt, case_vec(case, a, g), entity=ent, **mp), verts, pt, ref
    if n == "PointDivergenceEvaluation":
        return cls(ref, spt, entity=ent, **mp), verts, pt, ref
    inner = FL.PointEvaluation(ref.sub_entity(*ent).default_reference(), num.RP(geo.interior_point(ecell(cell, ent), a["w"])), entity=(ent[0], 0))
    if n in ("IntegralAgainst", "IntegralOfDivergenceAgainst"):
        f = q
        if n == "IntegralAgainst" and case["f"]["kind"] == "vector":
            f = tuple(q * num.R(c) for c in a["d"][: ent[0]])
        return cls(ref, f, entity=ent, **mp), verts, pt, ref
    if n == "IntegralOfDirectionalMultiderivative":
        return cls(ref, (vec(a["d"]), vec(a["e"])), tuple(a["alpha"][:2]), entity=ent, scale=a["c"], **mp), verts, pt, ref
    if n == "IntegralMoment":
        f = q
        if case["f"]["kind"] == "vector":
            f = tuple(q * num.R(c) for c in a["d"][:g])
        return cls(ref, f, inner, entity=ent, **mp), verts, pt, ref
    if n == "DerivativeIntegralMoment":
        return cls(ref, q, vec(a["d"]), inner, entity=ent, **mp), verts, pt, ref
    if n == "InnerProductIntegralMoment":
        return cls(ref, q, vec(a["d"]), vec(a["e"]), inner, entity=ent, **mp), verts, pt, ref
    return cls(ref, q, inner, entity=ent, **mp), verts, pt, ref


def case_vec(case, a, g):
    if case["f"]["kind"] == "scalar":
        return num.R(a["c"])
    if case["f"]["kind"] == "vector":
        return tuple(gen.psym(a["q"]) * num.R(i) for i in a["d"][:g])
    return tuple(tuple(num.R(a["d"][i] ) * num.R(a["e"][j]) for j in range(g)) for i in range(g))


def expected(case, fn, verts, pt):
    cell, ent, n, a = case["cell"], tuple(case["ent"]), case["cls"], case["arg"]
    g = len(verts[0])
    ec = ecell(cell, ent)
    ev = entity_verts(verts, cell, ent)
    P = np.array([[float(i) for i in pt]])
    d, e = fl(a["d"][:g]), fl(a["e"][:g])
    if n == "PointEvaluation":
        return fn.comp_at(P)[0][0]
    if n == "WeightedPointEvaluation":
        return fn.comp_at(P)[0][0] * float(geo.F(a["c"]))
    if n == "DerivativePointEvaluation":
        return fn.comp_at(P, lambda c: multi(c, a["alpha"][:g]))[0][0]
    if n == "PointDirectionalDerivativeEvaluation":
        return fn.comp_at(P, lambda c: along(c, a["d"][:g]))[0][0]
    if n == "PointNormalDerivativeEvaluation":
        return float(fn.comp_at(P, grad)[:g, 0] @ normal(ev, ec))
    if n == "PointComponentSecondDerivativeEvaluation":
        al = [0, 0, 0]
        for i in a["ij"]:
            al[i % g] += 1
        return fn.comp_at(P, lambda c: multi(c, al))[0][0]
    if n == "PointInnerProduct":
        m = fn.comp_at(P)[:, 0].reshape(g, g)
        return float(d @ m @ e)
    if n == "DotPointEvaluation":
        v = fn.comp_at(P)[:, 0]
        if fn.kind == "scalar":
            return float(v[0] * float(geo.F(a["c"])))
        if fn.kind == "vector":
            return float(v @ d) * float(num.peval(gen.pd(a["q"]), list(pt) + [0] * (3 - len(pt))))
        return float(np.sum(v.reshape(g, g) * np.outer(d, e)))
    if n == "PointDivergenceEvaluation":
        return fn.comp_at(P, div)[0][0]
    pcs = None if fn.pieces[0][0] is None else [vs for vs, _ in fn.pieces]
    pts, w, loc = quad_entity(verts, cell, ent, pcs)
    q = pev(gen.pd(a["q"]), loc) if "q" in a else None
    if n == "IntegralAgainst":
        J = jac(verts, cell)
        v = fn.comp_at(pts)
        if fn.kind == "scalar":
            return float(np.sum(w * q * v[0])) / J
        # vector weight given in the entity's coordinates, pushed forward contravariantly
        ax = np.array([fl(ev[i]) - fl(ev[0]) for i in geo.AXES[ec]])
        k = (fl(a["d"][: ent[0]]) @ ax) / _signed(ax)
        return float(np.sum(w * q * (k @ v))) / J
    if n == "IntegralOfDivergenceAgainst":
        return float(np.sum(w * q * fn.comp_at(pts, div)[0]))
    if n == "IntegralOfDirectionalMultiderivative":
        def op(c):
            for _ in range(a["alpha"][0]):
                c = along(c, a["d"][:g])
            for _ in range(a["alpha"][1]):
                c = along(c, a["e"][:g])
            return c

        return float(np.sum(w * fn.comp_at(pts, op)[0])) * a["c"]
    if n == "IntegralMoment":
        v = fn.comp_at(pts)
        vol = 1.0
        if case["map"]:
            dv = entity_verts([geo.FV(x) for x in geo.DEFAULT[cell]], cell, ent)
            vol = jac(dv, ec) / jac(ev, ec)
        if fn.kind == "scalar":
            return float(np.sum(w * q * v[0])) * vol
        return float(np.sum(w * q * (d @ v))) * vol
    if n == "DerivativeIntegralMoment":
        return float(np.sum(w * q * (d @ fn.comp_at(pts, grad)[:g]))) * _volscale(case, cell, ent, ev, ec)
    if n == "NormalDerivativeIntegralMoment":
        return float(np.sum(w * q * (normal(ev, ec) @ fn.comp_at(pts, grad)[:g]))) * _volscale(case, cell, ent, ev, ec)
    if n == "DivergenceIntegralMoment":
        return float(np.sum(w * q * fn.comp_at(pts, div)[0])) * _volscale(case, cell, ent, ev, ec)
    if n == "TangentIntegralMoment":
        return float(np.sum(w * q * (tangent(ev) @ fn.comp_at(pts))))
    if n == "NormalIntegralMoment":
        return float(np.sum(w * q * (normal(ev, ec) @ fn.comp_at(pts))))
    m = fn.comp_at(pts).reshape(g, g, -1)
    l, r = (d, e) if n == "InnerProductIntegralMoment" else (normal(ev, ec), normal(ev, ec))
    # the documented inner-product moment carries the size of the entity's axes
    return float(np.sum(w * q * np.einsum("i,ijk,j->k", l, m, r))) * jac(ev, ec) * _volscale(case, cell, ent, ev, ec)


def _volscale(case, cell, ent, ev, ec):
    if not case["map"]:
        return 1.0
    dv = entity_verts([geo.FV(x) for x in geo.DEFAULT[cell]], cell, ent)
    return jac(dv, ec) / jac(ev, ec)


def _signed(ax):
    """Determinant used by a contravariant map from the entity's coordinates."""
    if ax.shape[0] == ax.shape[1]:
        return float(np.linalg.det(ax.T))
    return float(np.sqrt(np.linalg.det(ax @ ax.T)))


def close(a, b):
    return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))


def value(v):
    return float(sympy.N(num.raw(v), 20))


def prop(case, ctx):
    dof, verts, pt, ref = build(case)
    ent = tuple(case["ent"])
    cell, n = case["cell"], case["cls"]
    ctx.label(f"class:{n}", f"cell:{cell}", "piecewise" if case["f"]["pieces"][0]["verts"] else "smooth")
    fn = Fn(case["f"])
    f = fn.symfem()
    want = expected(case, fn, verts, pt)
    got = dof.eval(f)
    ctx.count()
    if abs(want) < 1e-13:
        ctx.trivial("zero value")
    check(close(value(got), want), f"{n} on {cell} {ent} gives {got} = {value(got)}, definition gives {want}")
    flt = dof.eval(f, symbolic=False)
    check(isinstance(flt, float) and close(flt, want), f"{n}.eval(symbolic=False) gives {flt!r}, definition gives {want}")
    # linearity against a second function
    fn2 = Fn(case["f2"])
    f2 = fn2.symfem()
    a, b = num.R(case["a"]), num.R(case["b"])
    lhs = dof.eval(f * a + f2 * b)
    rhs = float(a) * value(got) + float(b) * value(dof.eval(f2))
    check(close(value(lhs), rhs), f"{n} is not linear: {lhs} vs {rhs}")
    # placement
    check((dof.entity_dim(), dof.entity_number()) == ent, "wrong entity reported")
    dp = dof.dof_point()
    if n in PT or "Moment" in n:
        wantp = pt
    else:
        ev = entity_verts(verts, cell, ent)
        wantp = tuple(sum(c) / len(ev) for c in zip(*ev))
    check(len(dp) == len(wantp) and all(num.frac(i) == j for i, j in zip(dp, wantp)), f"dof_point of {n} is {dp}, not {wantp}")
    ap = dof.adjusted_dof_point()
    if n in PT or ent[0] == 0:
        check(tuple(ap) == tuple(dp), f"adjusted_dof_point of a point evaluation is {ap}")
    else:
        c = geo.local_coords(entity_verts(verts, cell, ent), ecell(cell, ent), [num.frac(i) for i in ap])
        check(c is not None and geo.in_reference(ecell(cell, ent), c), f"adjusted_dof_point {ap} is outside its entity")
    direction(case, dof, verts)


def direction(case, dof, verts):
    cell, ent, n, a = case["cell"], tuple(case["ent"]), case["cls"], case["arg"]
    g = len(verts[0])
    ev, ec = entity_verts(verts, cell, ent), ecell(cell, ent)
    got = dof.dof_direction()
    want = None
    if n in ("PointDirectionalDerivativeEvaluation", "DerivativeIntegralMoment"):
        want = fl(a["d"][:g])
    elif n in ("PointNormalDerivativeEvaluation", "NormalIntegralMoment", "NormalDerivativeIntegralMoment", "NormalInnerProductIntegralMoment"):
        want = normal(ev, ec)
    elif n == "TangentIntegralMoment":
        want = tangent(ev)
    elif n in ("PointInnerProduct", "InnerProductIntegralMoment"):
        want = fl(a["d"][:g]) if a["d"][:g] == a["e"][:g] else None
    elif n == "DotPointEvaluation" and case["f"]["kind"] == "vector":
        return
    elif n == "IntegralMoment" and case["f"]["kind"] == "vector":
        return
    if want is None:
        check(got is None, f"{n} has direction {got}")
    else:
        check(got is not None and np.allclose([float(i) for i in got], want), f"{n} has direction {got}, not {want}")


# ------------------------------------------------------------------ generators
def value_kind(n):
    if n in ("PointInnerProduct", "InnerProductIntegralMoment", "NormalInnerProductIntegralMoment"):
        return ["matrix"]
    if n in ("PointDivergenceEvaluation", "IntegralOfDivergenceAgainst", "DivergenceIntegralMoment", "TangentIntegralMoment", "NormalIntegralMoment"):
        return ["vector"]
    if n == "DotPointEvaluation":
        return ["scalar", "vector", "matrix"]
    if n in ("IntegralAgainst", "IntegralMoment"):
        return ["scalar", "vector"]
    return ["scalar"]


def ent_dims(n, cell):
    t = geo.TDIM[cell]
    if n == "PointNormalDerivativeEvaluation":
        return [1] if t == 2 else []
    if n in PT:
        return list(range(t + 1))
    if n == "TangentIntegralMoment":
        return [1]
    if n in ("NormalIntegralMoment", "NormalDerivativeIntegralMoment", "NormalInnerProductIntegralMoment"):
        return [t - 1] if t > 1 else []
    return list(range(1, t + 1))


@st.composite
def functional_case(draw, n, piecewise=False):
    cells = [c for c in CELLS if ent_dims(n, c)]
    cell = draw(st.sampled_from(["triangle", "quadrilateral"] if piecewise else cells))
    t = geo.TDIM[cell]
    kind = draw(st.sampled_from(value_kind(n)))
    ed = draw(st.sampled_from(ent_dims(n, cell)))
    if n == "IntegralMoment" and kind == "vector" or n == "IntegralAgainst" and kind == "vector":
        # the contravariant push-forward is only defined onto the cell and onto faces in 3D
        ed = draw(st.sampled_from([i for i in ent_dims(n, cell) if n == "IntegralMoment" or i == t or (i, t) == (2, 3)]))
    en = draw(st.integers(0, len(geo.entities(cell, ed)) - 1))
    mapped = draw(st.booleans())
    mp = draw(gen.affine(t)) if mapped else None
    if n == "IntegralMoment" and kind == "vector" or n == "NormalInnerProductIntegralMoment":
        mp = None  # refused on other vertices, or carries the covariant/contravariant factors
    if piecewise and cell == "quadrilateral":
        mp = None  # intersection with general quadrilaterals is documented as unsupported
    arg = {
        "w": draw(gen.weights(cell, strict=True)),
        "c": draw(st.sampled_from([1, 2, -3, 5])),
        "d": [draw(gen.nonzero()) for _ in range(3)],
        "e": [draw(gen.rats()) for _ in range(3)],
        "alpha": [draw(st.integers(0, 2)) for _ in range(3)],
        "ij": [draw(st.integers(0, 2)), draw(st.integers(0, 2))],
        "q": draw(gen.polynomial(ed if ed and n != "DotPointEvaluation" else max(1, t), 2, 3)),
    }
    if draw(st.integers(0, 3)) == 0:
        arg["e"] = list(arg["d"])
    pieces = [None]
    if piecewise:
        # (intersections are refused with NotImplementedError when the pieces of a quadrilateral do not
        # meet at its midpoint and no edge of either cell separates them)
        ctr = geo.interior_point(cell, draw(gen.weights(cell, strict=True)) if cell == "triangle" else [1, 1, 1, 1])
        loop = [0, 1, 2] if cell == "triangle" else [0, 1, 3, 2]
        A = gen.aff_of(mp) if mp else None
        D = [geo.FV(v) for v in geo.DEFAULT[cell]]
        D = [A(v) for v in D] if A else D
        ctr = A(ctr) if A else ctr
        pieces = []
        for i in range(len(loop)):
            vs = [D[loop[i]], D[loop[(i + 1) % len(loop)]], ctr]
            pieces.append([[gen.js(c) for c in v] for v in vs])

    def func():
        k = {"scalar": 1, "vector": t, "matrix": t * t}[kind]
        return {
            "kind": kind, "rows": t, "cols": t, "tdim": t,
            "pieces": [{"verts": p, "comp": [draw(gen.polynomial(t, 3, 3)) for _ in range(k)]} for p in pieces],
        }  # fmt: skip

    return {
        "cls": n, "cell": cell, "ent": [ed, en], "map": mp, "arg": arg, "f": func(), "f2": func(),
        "a": draw(gen.nonzero()), "b": draw(gen.nonzero()),
    }  # fmt: skip


# ------------------------------------------------------------------ the DOFs of real elements
def prop_element(case, ctx):
    """Linearity, float evaluation and reported entity of the DOFs of created elements."""
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    basis = e.get_polynomial_basis()
    ctx.label(f"element:{type(e).__name__}")
    i, j = case["i"] % len(basis), case["j"] % len(basis)
    a, b = num.R(case["a"]), num.R(case["b"])
    for k in case["dofs"]:
        d = e.dofs[k % len(e.dofs)]
        vi, vj = value(d.eval(basis[i])), value(d.eval(basis[j]))
        got = d.eval(basis[i] * a + basis[j] * b)
        ctx.count()
        check(close(value(got), float(a) * vi + float(b) * vj), f"DOF {k % len(e.dofs)} is not linear")
        check(close(d.eval(basis[i], symbolic=False), vi), "eval(symbolic=False) differs")
        check((d.entity_dim(), d.entity_number()) == tuple(d.entity), "entity_dim/entity_number differ from entity")


@st.composite
def element_case(draw, cfg):
    i = st.integers(0, 30)
    return {"cfg": cfg, "i": draw(i), "j": draw(i), "a": draw(gen.nonzero()), "b": draw(gen.nonzero()),
            "dofs": draw(st.lists(i, min_size=3, max_size=3))}  # fmt: skip


def make_groups(tier, seed):
    out = []
    k = 1 if tier == "quick" else 12
    for n in PT + INT:
        slow = n in INT
        for part in range(1 if tier == "quick" else 4):
            tag = f"/{part}" if part else ""
            out.append(Group(f"functional/{n}{tag}", prop, functional_case(n), (28 if slow else 45) * k, 10 if slow else 4))
    for n in ["PointEvaluation", "DotPointEvaluation", "IntegralAgainst", "IntegralMoment", "TangentIntegralMoment", "NormalIntegralMoment", "PointDivergenceEvaluation", "IntegralOfDivergenceAgainst"]:
        out.append(Group(f"piecewise/{n}", prop, functional_case(n, True), 10 * k, 8))
    seen = set()
    for r in elems.select(0.5 if tier == "quick" else 5):
        key = (r["cls"], r["cell"], str(r["doft"])) if tier == "quick" else elems.cfg_name(elems.cfg(r))
        if r["doft"] and key not in seen:
            seen.add(key)
            c = elems.cfg(r)
            out.append(Group(f"element/{elems.cfg_name(c)}", prop_element, element_case(c), 2 if tier == "quick" else 8, r["cost"]))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C02", make_groups, RULE))

"""C21: the self-test of elements gives the right verdict on user-defined elements."""

import copy
import sys
from fractions import Fraction

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from checks import c04
from vlib import core, elems, geo, num
from vlib.core import Group, check

import numpy as np
import sympy

import symfem
from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement
from symfem.functionals import BaseFunctional, PointEvaluation, PointDirectionalDerivativeEvaluation
from symfem.functions import AnyFunction, MatrixFunction, ScalarFunction, VectorFunction
from symfem.mappings import MappingNotImplemented
from symfem.references import NonDefaultReferenceError
from symfem.utils import allequal

RULE = (
    "a case is a user-defined element: the polynomials and DOFs of a library element (recombined, reordered) with at "
    "most one change to its DOFs, entities, mapping, basis functions or declared continuity; or a directly defined or "
    "enriched element; or two nested sequences; the oracle is the algebra of the change (duality, entities, points, "
    "rank) and the numeric traces of the basis on the cell and on its neighbour across x=0; non-trivial if the oracle "
    "has a verdict"
)
X = num.X
F = Fraction

# The neighbour across x=0, and the facets of the cell and of the neighbour that are shared
NEIGHBOUR = {
    "interval": (((-1,), (0,)), 0, 1),
    "triangle": (((-1, 0), (0, 0), (0, 1)), 1, 0),
    "tetrahedron": (((-1, 0, 0), (0, 0, 0), (0, 1, 0), (0, 0, 1)), 1, 0),
    "quadrilateral": (((0, 0), (0, 1), (-1, 0), (-1, 1)), 1, 0),
    "hexahedron": (((0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (-1, 0, 0), (-1, 1, 0), (-1, 0, 1), (-1, 1, 1)), 2, 0),
    "prism": (((-1, 0, 0), (0, 0, 0), (0, 1, 0), (-1, 0, 1), (0, 0, 1), (0, 1, 1)), 2, 3),
    "pyramid": (((-1, 0, 0), (0, 0, 0), (-1, 1, 0), (0, 1, 0), (0, 0, 1)), 2, 3),
}  # fmt: skip


class Combined(BaseFunctional):
    """c * d1 + a * d2, for two functionals d1 and d2, on the entity of d1."""

    def __init__(self, d1, c, d2=None, a=0):
        super().__init__(d1.reference, d1.entity, d1.mapping)
        self.d1, self.c, self.d2, self.a = d1, c, d2, a

    def _eval_symbolic(self, function):
        out = self.d1.eval_symbolic(function) * self.c
        if self.d2 is not None:
            out = out + self.d2.eval_symbolic(function) * self.a
        return out

    def perform_mapping(self, fs, map, inverse_map):
        return self.d1.perform_mapping(fs, map, inverse_map)

    def dof_point(self):
        return self.d1.dof_point()

    def get_tex(self):
        return "v\\mapsto l(v)", []

    name = "Combined functional"


def Q(s):
    f = F(s)
    return sympy.Rational(f.numerator, f.denominator)


def changed(dofs, ops):
    """The DOFs after the operations of the case."""
    dofs = list(dofs)
    n = len(dofs)
    for op in ops:
        if op[0] == "swap":  # the entities of two DOFs
            i, j = op[1] % n, op[2] % n
            a, b = copy.copy(dofs[i]), copy.copy(dofs[j])
            a.entity, b.entity = b.entity, a.entity
            dofs[i], dofs[j] = a, b
        elif op[0] == "order":  # a permutation of the DOFs, keeping the order on each entity
            keys = [op[1][k % len(op[1])] for k in range(n)]
            ents = {}
            for d in dofs:
                ents.setdefault(d.entity, []).append(d)
            es = [dofs[k].entity for k in sorted(range(n), key=lambda k: (keys[k], k))]
            dofs = [ents[e].pop(0) for e in es]
        elif op[0] == "shuffle":  # any permutation
            keys = [op[1][k % len(op[1])] for k in range(n)]
            dofs = [dofs[k] for k in sorted(range(n), key=lambda k: (keys[k], k))]
        elif op[0] == "scale":
            i = op[1] % n
            dofs[i] = Combined(dofs[i], Q(op[2]))
        elif op[0] == "add":
            i, j = op[1] % n, op[2] % n
            if i != j:
                dofs[i] = Combined(dofs[i], sympy.Integer(1), dofs[j], Q(op[3]))
        elif op[0] == "mapping":
            dofs = [copy.copy(d) for d in dofs]
            for d in dofs:
                d.mapping = op[1]
        elif op[0] in ["entity", "dim"]:
            i = op[1] % n
            dofs[i] = copy.copy(dofs[i])
            dofs[i].entity = entity_after(dofs[i], op)
    return dofs


def entity_after(d, op):
    if op[0] == "entity":  # one that does not exist
        dim = d.entity[0]
        m = d.reference.sub_entity_count(dim)
        return (dim, m + op[2] if op[2] >= 0 else op[2])
    return (op[2] % (d.reference.tdim + 1), 0)


def user_element(cfg, ops, continuity, recombine=(), perturb=None):
    """A user-defined element with the polynomials and DOFs of a library element, changed."""
    cell, name, order, kw = cfg
    src = elems.get(cell, name, order, kw)

    class UserElement(CiarletElement):
        names = ["user-defined"]
        references = [cell]
        min_order = 0
        mapping = src.mapping if hasattr(src, "mapping") else "identity"
        value_type = getattr(src, "value_type", "scalar")

        def __init__(self, reference, order):
            if tuple(reference.vertices) == tuple(src.reference.vertices):
                e = src
            else:
                e = symfem.create_element(cell, name, cfg[2], vertices=reference.vertices, **kw)
            basis = [b for b in e.get_polynomial_basis()]
            for i, j, c in recombine:
                i, j = i % len(basis), j % len(basis)
                if i != j:
                    basis[i] = basis[i] + c * basis[j]
            super().__init__(reference, order, basis, changed(e.dofs, ops), e.domain_dim, e.range_dim, e.range_shape)

        def get_basis_functions(self, use_tensor_factorisation=False):
            fs = super().get_basis_functions(use_tensor_factorisation)
            if perturb is not None:
                fs = list(fs)
                kind, i, j, c = perturb
                i, j = i % len(fs), j % len(fs)
                if kind == "swap" and i != j:
                    fs[i], fs[j] = fs[j], fs[i]
                elif kind == "add" and i != j:
                    fs[i] = fs[i] + fs[j] * Q(c)
                elif kind == "equal":
                    fs[i] = fs[i] * 2 - fs[i]
                else:
                    fs[i] = fs[i] * (1 + Q(c))
            return fs

        @property
        def continuity(self):
            return continuity

    return UserElement(src.reference, src.order)


def facet_data(cell):
    vs, i, j = NEIGHBOUR[cell]
    t = geo.TDIM[cell]
    fi, fj = c04.facets(cell)[i], c04.facets(cell)[j]
    for a, b in zip(fi, fj):
        if tuple(F(c) for c in geo.DEFAULT[cell][a]) != tuple(F(c) for c in vs[b]):
            raise core.HarnessError(f"the facets of {cell} do not agree")
    pairs = []
    loc_i = {v: k for k, v in enumerate(fi)}
    loc_j = {v: k for k, v in enumerate(fj)}
    for d in range(t):
        by = {frozenset(loc_j[v] for v in ent): m for m, ent in enumerate(geo.entities(cell, d)) if set(ent) <= set(fj)}
        for m, ent in enumerate(geo.entities(cell, d)):
            if set(ent) <= set(fi):
                pairs.append((d, m, by[frozenset(loc_i[v] for v in ent)]))
    return vs, fi, pairs


def continuity_verdict(e, cell, continuity, ctx):
    """'match', 'mismatch' (on the functions of the shared entities), 'unattached' or None."""
    if continuity == "L2":
        return "match"
    t = geo.TDIM[cell]
    vs, fi, pairs = facet_data(cell)
    fc = geo.cell_by_nverts(t - 1, len(fi))
    fverts = [[float(c) for c in geo.DEFAULT[cell][v]] for v in fi]
    cont = continuity.replace("{order}", str(e.order))
    integral = cont.startswith("integral ")
    kind = cont.replace("integral ", "")
    dorder = 0
    if kind[0] == "C":
        dorder, kind = int(kind[1:]), "C"
    if integral:
        pts, w, _ = geo.quad_on([geo.DEFAULT[cell][v] for v in fi], fc, 2 * e.order + 6)
        pts = np.array(pts, dtype=float)
    else:
        i = NEIGHBOUR[cell][1]
        pts = c04.facet_points(cell, i)
    try:
        mapped = e.map_to_cell(vs)
    except (MappingNotImplemented, NonDefaultReferenceError):
        return "match"
    sides = []
    pw = False
    for fs in (e.get_basis_functions(), mapped):
        n = len(fs)
        pw = pw or any(isinstance(f, symfem.piecewise_functions.PiecewiseFunction) for f in fs)
        ev = num.Ev(c04.derivs(fs, t, dorder), lam=num.lam_mp if dorder else num.lam)
        vals = ev(pts)
        tr = c04.trace(kind, vals, fverts, fc)
        if integral:
            tr = np.einsum("fpc,p->fc", tr, w)[:, None, :]
        nd = [tr[:n]]
        pos, width = n, n
        for _ in range(dorder):
            width *= t
            nd.append(tr[pos : pos + width].reshape(n, width // n, tr.shape[1], -1).transpose(0, 2, 1, 3).reshape(n, tr.shape[1], -1))
            pos += width
        sides.append(np.concatenate(nd, axis=2))
    A, B = sides
    scale = max(1.0, *(np.abs(S).max() if S.size else 0 for S in sides))
    out = "match"
    used = (set(), set())
    for d, m, k in pairs:
        da, db = e.entity_dofs(d, m), e.entity_dofs(d, k)
        for p, q in zip(da, db):
            ctx.count()
            used[0].add(p), used[1].add(q)
            diff = np.abs(A[p] - B[q]).reshape(A.shape[1], -1).max(axis=1) / scale if A[p].size else np.zeros(1)
            worst = diff.min() if pw else diff.max()
            if worst > 1e-6:
                return "mismatch"
            if diff.max() > 1e-9:
                out = None
    if out == "match":
        for S, u in zip(sides, used):
            for p in range(len(S)):
                if p not in u and S[p].size and np.abs(S[p]).max() > 1e-6 * scale:
                    return "unattached"
    return out


def verdict(e):
    """The verdict of the self-test: None if it passes, else the error."""
    try:
        e.test()
    except Exception as x:  # noqa: B902
        return x
    return None


def expect(e, accept, say, ctx):
    r = verdict(e)
    ctx.label("accept" if accept else "reject")
    if accept:
        check(r is None, f"test() raises {type(r).__name__}: {r} although {say}")
    else:
        check(r is not None, f"test() accepts the element although {say}")
        check(isinstance(r, AssertionError), f"test() raises {type(r).__name__}: {r}, not an AssertionError, although {say}")


def prop_library(case, ctx):
    cfg = case["cfg"]
    cell = cfg[0]
    src = elems.get(*cfg)
    op = case["op"]
    n = src.space_dim
    cont = case["declare"] or src.continuity
    ctx.label(f"cell:{cell}", f"op:{op[0] if op else None}", f"continuity:{cont}")
    ops = [o for o in (op, case["perm"]) if o is not None]
    e = user_element(cfg, ops, cont, case["recombine"], case["perturb"])
    bad = None
    for o in ops:
        if o[0] == "entity":
            bad = f"DOF {o[1] % n} is on {entity_after(src.dofs[o[1] % n], o)}, which does not exist"
        if o[0] == "dim":
            d = src.dofs[o[1] % n]
            new = entity_after(d, o)
            if hasattr(d, "integral_domain") and d.integral_domain.tdim != new[0]:
                bad = f"DOF {o[1] % n} is an integral over an entity of dimension {d.integral_domain.tdim} and is declared on {new}"
    p = case["perturb"]
    if p is not None and p[0] != "equal":
        bad = f"the basis functions are not dual to the DOFs ({p})"
    if bad is not None:
        expect(e, False, bad, ctx)
        return
    v = continuity_verdict(e, cell, cont, ctx)
    ctx.label(f"verdict:{v}")
    if v in [None, "unattached"]:
        ctx.trivial("no verdict")
        return
    expect(e, v == "match", f"its functions {'do not ' if v == 'mismatch' else ''}agree across the neighbouring cell ({cont})", ctx)


def prop_unattached(case, ctx):
    cfg = case["cfg"]
    e = user_element(cfg, [], case["declare"])
    v = continuity_verdict(e, cfg[0], case["declare"], ctx)
    if v != "unattached":
        raise core.HarnessError(f"{v}: not an unattached function")
    expect(e, False, f"a function of another entity has a trace on the facet ({case['declare']})", ctx)


MAPPINGS = ["identity", "covariant", "contravariant"]
MMAPPINGS = ["identity", "double_covariant", "double_contravariant"]
small = st.sampled_from(["-1", "2", "1/2", "-3", "1001/1000"])
keys = st.lists(st.integers(0, 30), min_size=4, max_size=12)
idx = st.integers(0, 200)


@st.composite
def library_cases(draw, r):
    cfg = elems.cfg(r)
    e = elems.get(*cfg)
    kind = draw(st.sampled_from(["valid", "valid", "declare", "swap", "shuffle", "scale", "scale", "add", "mapping", "entity", "dim", "basis"]))
    op = perturb = None
    declare = None
    shape = (e.range_shape or ()) if e.range_dim > 1 else ()
    value = "matrix" if len(shape) == 2 else "vector" if e.range_dim > 1 else "scalar"
    t = geo.TDIM[cfg[0]]
    if kind == "valid":
        declare = draw(st.sampled_from([None, None, None, "L2"]))
    elif kind == "declare":
        opts = {"scalar": ["C0", "C1", "C2"], "vector": ["C0", "C1", "H(div)", "H(curl)"], "matrix": ["C0", "inner H(div)", "inner H(curl)"]}[value]
        if t == 1:
            opts = ["C0", "C1"]
        declare = draw(st.sampled_from(opts))
    elif kind == "swap":
        op = ["swap", draw(idx), draw(idx)]
    elif kind == "shuffle":
        op = ["shuffle", draw(keys)]
    elif kind == "scale":
        op = ["scale", draw(idx), draw(small)]
    elif kind == "add":
        op = ["add", draw(idx), draw(idx), draw(small)]
    elif kind == "mapping":
        if value == "scalar" or any(d.mapping is None for d in e.dofs):
            op = ["scale", draw(idx), draw(small)]
        else:
            op = ["mapping", draw(st.sampled_from(MMAPPINGS if value == "matrix" else MAPPINGS))]
    elif kind == "entity":
        op = ["entity", draw(idx), draw(st.sampled_from([0, 1, 5, -1]))]
        declare = draw(st.sampled_from([None, "L2", "L2"]))
    elif kind == "dim":
        op = ["dim", draw(idx), draw(st.integers(0, t))]
        declare = "L2"
    elif kind == "basis":
        perturb = [draw(st.sampled_from(["swap", "add", "add", "scale", "equal"])), draw(idx), draw(idx), draw(small)]
        declare = "L2"
    perm = draw(st.one_of(st.none(), st.builds(lambda k: ["order", k], keys)))
    if kind == "entity" and perm is not None:
        perm = None
    rec = draw(st.lists(st.tuples(idx, idx, st.integers(-2, 2)).map(list), max_size=3))
    return {"cfg": cfg, "op": op, "perm": perm, "declare": declare, "recombine": rec, "perturb": perturb}


# points


def inside(cell, p):
    """Exact membership of the default cell."""
    if any(c < 0 for c in p):
        return False
    if cell in ["interval", "triangle", "tetrahedron"]:
        return sum(p) <= 1
    if cell in ["quadrilateral", "hexahedron"]:
        return max(p) <= 1
    if cell == "prism":
        return p[0] + p[1] <= 1 and p[2] <= 1
    return max(p[0], p[1]) + p[2] <= 1  # pyramid


def prop_points(case, ctx):
    cell = case["cell"]
    t = geo.TDIM[cell]
    pts = [tuple(F(c) for c in p) for p in case["points"]]
    ctx.label(f"cell:{cell}")
    ref = symfem.create_reference(cell)
    if len(pts[0]) == t:
        M = [[F(1)] + list(p) for p in pts]
        if any(len(p) != t for p in pts) or geo.det(M) == 0:
            ctx.trivial("points on a hyperplane")
            return
    basis = [sympy.Integer(1)] + list(X[:t])
    dofs = []
    for k, p in enumerate(pts):
        p = tuple(Q(c) for c in p)
        if case["direction"] is not None and k > 0:
            dofs.append(PointDirectionalDerivativeEvaluation(ref, p, tuple(sympy.Integer(int(m == k - 1)) for m in range(t)), (t, 0)))
        else:
            dofs.append(PointEvaluation(ref, p, (t, 0)))

    class PointElement(CiarletElement):
        names, references, min_order, continuity, value_type, mapping = ["pe"], [cell], 1, "L2", "scalar", "identity"

        def __init__(self, reference, order):
            super().__init__(reference, order, basis, dofs, t, 1)

    e = PointElement(ref, case["order"])
    ok = all(inside(cell, p) for p in pts)
    expect(e, ok, f"the points of its DOFs are {'' if ok else 'not '}all in the cell", ctx)


@st.composite
def points_cases(draw, cell):
    t = geo.TDIM[cell]
    V = [tuple(F(c) for c in v) for v in geo.DEFAULT[cell]]

    def point():
        w = [F(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))) for _ in V]
        if sum(w) == 0:
            w[0] = F(1)
        return [sum(a * v[k] for a, v in zip(w, V)) / sum(w) for k in range(t)]

    pts = [point() for _ in range(t + 1)]
    # one point is moved, perhaps out of the cell
    k = draw(st.integers(0, t))
    s = F(draw(st.sampled_from(["0", "0", "1/1000", "1/2", "-1/1000", "-2"])))
    a = draw(st.integers(0, t - 1))
    pts[k][a] += s
    if draw(st.booleans()):
        b = draw(st.integers(0, t - 1))
        pts[k][b] += F(draw(st.sampled_from(["1/100", "-1/3"])))
    return {
        "cell": cell, "points": [[str(c) for c in p] for p in pts], "order": draw(st.integers(1, 6)),
        "direction": draw(st.sampled_from([None, None, 1])),
    }  # fmt: skip


# directly defined elements


def rank(rows):
    rows = [list(map(F, r)) for r in rows]
    r = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            if rows[i][c] != 0:
                q = rows[i][c] / rows[r][c]
                rows[i] = [a - q * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r


def monomial(k, t):
    """The kth of a list of monomials."""
    ms = [(a, b, c) for s in range(4) for a in range(s, -1, -1) for b in range(s - a, -1, -1) for c in [s - a - b]]
    if t < 3:
        ms = [m for m in ms if m[2] == 0]
    if t < 2:
        ms = [m for m in ms if m[1] == 0]
    out = sympy.Integer(1)
    for v, p in zip(X, ms[k % len(ms)]):
        out *= v**p
    return out


def written(coeffs, form, t):
    """The polynomial with these coefficients, written in a form."""
    expr = sum((Q(c) * monomial(k, t) for k, c in enumerate(coeffs)), sympy.Integer(0))
    if form == "factor":
        return sympy.factor(expr)
    if form == "horner":
        return sympy.horner(expr, *X[:t]) if expr.free_symbols else expr
    if form == "shift":
        return sympy.Add(sympy.expand(expr.subs(X[0], X[0] + 1)).subs(X[0], X[0] - 1), 0)
    if form == "product" and expr != 0:
        return sympy.Mul(2, sympy.Rational(1, 2) * (expr + 1), evaluate=False) - 1
    return expr


def prop_direct(case, ctx):
    cell, shape, rows = case["cell"], case["shape"], case["rows"]
    t = geo.TDIM[cell]
    m = len(case["rows"][0]) // max(1, int(np.prod(shape)))
    fs = []
    for row, form in zip(rows, case["forms"]):
        comps = [written(row[k * m : (k + 1) * m], form, t) for k in range(int(np.prod(shape)))]
        if shape == []:
            fs.append(comps[0])
        elif len(shape) == 1:
            fs.append(tuple(comps))
        else:
            fs.append(tuple(tuple(comps[i * shape[1] : (i + 1) * shape[1]]) for i in range(shape[0])))
    ctx.label(f"shape:{shape}", f"cell:{cell}")

    class Direct(DirectElement):
        names, references, min_order, continuity, value_type, mapping = ["de"], [cell], 1, "L2", "scalar", "identity"

        def __init__(self, reference, order):
            super().__init__(reference, order, fs, [(t, 0)] * len(fs), t, int(np.prod(shape)), tuple(shape) if shape else None)

    e = Direct(symfem.create_reference(cell), 1)
    ok = rank(rows) == len(rows)
    expect(e, ok, f"its functions are {'' if ok else 'not '}linearly independent", ctx)


@st.composite
def direct_cases(draw, cell):
    t = geo.TDIM[cell]
    shape = draw(st.sampled_from([[], [], [t], [t, t]]))
    m = draw(st.integers(2, 4 if t == 1 else 6))
    width = m * int(np.prod(shape))
    n = draw(st.integers(1, min(5, width)))
    c = st.sampled_from([0, 0, 0, 1, -1, 2, "1/2"])
    rows = [[str(draw(c)) for _ in range(width)] for _ in range(n)]
    if draw(st.booleans()):  # a combination of the others
        w = [F(draw(st.sampled_from([1, -1, 2, 0]))) for _ in rows]
        row = [str(sum(a * F(r[k]) for a, r in zip(w, rows))) for k in range(width)]
        rows.insert(draw(st.integers(0, n)), row)
    forms = [draw(st.sampled_from(["plain", "factor", "horner", "shift", "product"])) for _ in rows]
    return {"cell": cell, "shape": shape, "rows": rows, "forms": forms}


# enriched elements


def prop_enriched(case, ctx):
    cfg = case["cfg"]
    cell = cfg[0]
    t = geo.TDIM[cell]
    op = case["op"]
    a = user_element(cfg, [op] if op else [], "L2")
    bubble = sympy.Integer(1)
    ref = a.reference
    for v in X[:t]:
        bubble *= v
    bubble *= 1 - sum(X[:t]) if cell in ["interval", "triangle", "tetrahedron"] else sympy.prod([1 - v for v in X[:t]])
    mid = tuple(sympy.Rational(1, len(geo.DEFAULT[cell])) * sum(sympy.Integer(int(v[k])) for v in geo.DEFAULT[cell]) for k in range(t))

    class Bubble(CiarletElement):
        names, references, min_order, continuity, value_type, mapping = ["bu"], [cell], 1, "C0", "scalar", "identity"

        def __init__(self, reference, order):
            super().__init__(reference, order, [bubble], [PointEvaluation(reference, mid, (t, 0))], t, 1)

    class Enriched(EnrichedElement):
        names, references, min_order, value_type, mapping = ["en"], [cell], 1, "scalar", "identity"
        continuity = case["declare"]

        def __init__(self, reference, order):
            super().__init__([a, Bubble(reference, order)])

    e = Enriched(ref, 1)
    v = continuity_verdict(e, cell, case["declare"], ctx)
    ctx.label(f"verdict:{v}", f"cell:{cell}")
    if v in [None, "unattached"]:
        ctx.trivial("no verdict")
        return
    expect(e, v == "match", f"its functions {'do not ' if v == 'mismatch' else ''}agree across the neighbouring cell", ctx)


@st.composite
def enriched_cases(draw, cfg):
    op = draw(st.sampled_from([None, "swap", "scale"]))
    if op == "swap":
        op = ["swap", draw(idx), draw(idx)]
    elif op == "scale":
        op = ["scale", draw(idx), draw(small)]
    return {"cfg": cfg, "op": op, "declare": draw(st.sampled_from(["C0", "C0", "C1", "L2"]))}


# comparison of nested sequences


def leaf(c, kind, form):
    """A value with coefficients c."""
    if kind == "int":
        return int(c[0])
    if kind == "scalar":
        return ScalarFunction(written(c, form, 2))
    if kind == "vector":
        return VectorFunction([written(c, form, 2), written(c[1:] + c[:1], form, 2)])
    if kind == "matrix":
        return MatrixFunction([[written(c, form, 2), 0], [1, written(c[1:] + c[:1], form, 2)]])
    if kind == "expr":
        return written(c, form, 2)
    raise core.HarnessError(kind)


def build(tree, right):
    if tree[0] == "leaf":
        return leaf(tree[2], tree[1], tree[4] if right else tree[3])
    ch = [build(s, right) for s in tree[2]]
    return ch if tree[1][int(right)] == "list" else tuple(ch)


def value(tree):
    """Hashable value of the tree: what two items have to share to be equal."""
    if tree[0] == "seq":
        return ("seq",) + tuple(value(s) for s in tree[2])
    c = tuple(F(a) for a in tree[2])
    kind = tree[1]
    if kind == "int":
        return ("scalar", (c[0],) + (F(0),) * 3)
    if kind in ["scalar", "expr"]:
        return ("scalar", c)
    return (kind, c)


def prop_allequal(case, ctx):
    a, b = case["a"], case["b"]
    va, vb = value(a), value(b)
    x, y = build(a, False), build(b, True)
    ctx.label(f"equal:{va == vb}")
    got = allequal(x, y)
    check(isinstance(got, bool), f"allequal returns {got!r}")
    check(got == (va == vb), f"allequal({x}, {y}) is {got}")


FORMS = ["plain", "factor", "horner", "shift", "product"]
LEAVES = ["int", "scalar", "scalar", "vector", "matrix", "expr"]


@st.composite
def tree(draw, depth):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        kind = draw(st.sampled_from(LEAVES))
        c = [str(draw(st.integers(-2, 2))) for _ in range(4)]
        if kind == "int":
            c[1:] = ["0"] * 3
        return ["leaf", kind, c, draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))]
    k = [draw(st.sampled_from(["list", "tuple"])) for _ in range(2)]
    return ["seq", k, [draw(tree(depth - 1)) for _ in range(draw(st.integers(0, 4)))]]


def leaves(t, path=()):
    if t[0] == "leaf":
        yield path
    else:
        for k, s in enumerate(t[2]):
            yield from leaves(s, path + (k,))


def at(t, path):
    for k in path:
        t = t[2][k]
    return t


def no_expr(t):
    if t[0] == "leaf":
        if t[1] == "expr":
            t[1] = "scalar"
    else:
        for s in t[2]:
            no_expr(s)


@st.composite
def allequal_cases(draw, change):
    a = draw(tree(3))
    b = copy.deepcopy(a)
    if change == "expr":
        pass
    else:
        no_expr(b)
    ls = list(leaves(b))
    if change in ["value", "expr"] and ls and draw(st.booleans()) or change == "expr" and ls:
        leaf_ = at(b, draw(st.sampled_from(ls)))
        if change == "expr":
            leaf_[1] = "expr"
        k = 0 if leaf_[1] == "int" else draw(st.integers(0, 3))
        if draw(st.booleans()):
            leaf_[2][k] = str(int(leaf_[2][k]) + draw(st.sampled_from([1, -1])))
    ls = [p for p in ls if at(b, p)[1] not in ["vector", "matrix"]]  # comparing those with a list of them raises
    if change == "nest" and ls:
        leaf_ = at(b, draw(st.sampled_from(ls)))
        leaf_[:] = ["seq", ["list", "list"], [list(leaf_)]]
    return {"a": a, "b": b}


def fixed_allequal(kind):
    L = lambda k, *c: ["leaf", k, [str(a) for a in c] + ["0"] * (4 - len(c)), "plain", "plain"]
    S = lambda *s: ["seq", ["list", "list"], list(s)]
    if kind == "expr":
        return [
            {"a": L("int", 1), "b": L("expr", 2)}, {"a": L("expr", 1), "b": L("expr", 0, 1)},
            {"a": S(L("scalar", 0, 1)), "b": S(L("expr", 0, 0, 1))},
        ]  # fmt: skip
    return [
        {"a": S(L("int", 1)), "b": S(L("int", 1), L("int", 2))}, {"a": S(L("scalar", 1, 1), L("int", 1)), "b": S(L("scalar", 1, 1))},
        {"a": S(), "b": S(L("int", 1))}, {"a": S(S(L("int", 1)), L("int", 1)), "b": S(S(L("int", 1), L("int", 1)), L("int", 1))},
    ]  # fmt: skip


LOCAL = [
    ["interval", "Lagrange", 2, {}], ["triangle", "Lagrange", 3, {}], ["tetrahedron", "Lagrange", 3, {}], ["quadrilateral", "Q", 2, {}],
    ["hexahedron", "Q", 2, {}], ["prism", "Lagrange", 2, {}], ["pyramid", "Lagrange", 2, {}], ["triangle", "Nedelec", 1, {}],
    ["tetrahedron", "Nedelec", 2, {}], ["quadrilateral", "NCE", 1, {}], ["hexahedron", "NCE", 1, {}], ["prism", "Nedelec", 1, {}],
    ["triangle", "Raviart-Thomas", 1, {}], ["tetrahedron", "Raviart-Thomas", 1, {}], ["quadrilateral", "NCF", 1, {}], ["hexahedron", "NCF", 1, {}],
    ["triangle", "Regge", 1, {}], ["tetrahedron", "Regge", 0, {}], ["triangle", "Hellan-Herrmann-Johnson", 1, {}],
    ["tetrahedron", "Hellan-Herrmann-Johnson", 0, {}], ["triangle", "Argyris", 5, {}], ["interval", "Hermite", 3, {}],
    ["triangle", "Hermite", 3, {}], ["tetrahedron", "Brezzi-Douglas-Marini", 1, {}], ["triangle", "vector Lagrange", 1, {}],
]  # fmt: skip


COSTLY = ["tetrahedron/Nedelec/2", "hexahedron/Q/2", "triangle/Argyris/5", "tetrahedron/Lagrange/3", "prism/Lagrange/2", "tetrahedron/Brezzi-Douglas-Marini/1"]
SLOW = ["triangle", "nonconforming Arnold-Winther", 2, {}]


def local_cases(cfg, quick):
    """A change to a DOF of each of the entities of the shared facet, on the cell and on its neighbour."""
    cell = cfg[0]
    try:
        e = elems.get(*cfg)
    except Exception as x:  # noqa: B902
        raise core.HarnessError(f"{cfg}: {x}")
    base = {"cfg": cfg, "perm": None, "declare": None, "recombine": [], "perturb": None}
    out = []
    costly = quick and elems.cfg_name(cfg) in COSTLY
    for c, (d, m, k) in enumerate(facet_data(cell)[2]):
        for ds in (e.entity_dofs(d, m), e.entity_dofs(d, k))[c % 2 if costly else 0 :: 2 if costly else 1]:
            for p in ds[: 1 if quick else None]:
                out.append({**base, "op": ["scale", p, "2"]})
            if len(ds) > 1 and not costly:
                out.append({**base, "op": ["scale", ds[-1], "1/2"]})
                out.append({**base, "op": ["add", ds[0], ds[-1], "1"]})
    return out


UNATTACHED = [
    (["triangle", "Lagrange", 1, {"variant": "legendre"}], "C0"), (["interval", "Lagrange", 0, {}], "C0"),
    (["quadrilateral", "Q", 0, {}], "C0"), (["triangle", "Crouzeix-Raviart", 1, {}], "C0"),
]  # fmt: skip


def make_groups(tier, seed):
    out = []
    quick = tier == "quick"
    seen = set()
    for r in elems.table():
        key = (r["cell"], r["name"], r["order"])
        if key in seen or r["pw"] is None:
            continue
        if r["cls"] in ["EnrichedElement", "DirectElement"] or not r["doft"] or r["order"] > 4:
            continue
        if r["continuity"] == "L2" and r["order"] > 1:
            continue
        mapto = r["mapto"] if isinstance(r["mapto"], float) else 0
        w = r["cost"] + (1 + r["dim"] / 3) * mapto
        if w > (0.6 if quick else 4) or r["dim"] > (20 if quick else 40):
            continue
        seen.add(key)
        n = (8 if w < 0.05 else 4 if w < 0.2 else 2) if quick else (60 if w < 0.05 else 25 if w < 0.2 else 8)
        out.append(Group(f"user/{elems.cfg_name(elems.cfg(r))}", prop_library, library_cases(r), n, w * n))
    k = 1 if quick else 20
    for cell in NEIGHBOUR:
        out.append(Group(f"points/{cell}", prop_points, points_cases(cell), 30 * k, 2))
        out.append(Group(f"direct/{cell}", prop_direct, direct_cases(cell), 25 * k, 2))
    for cell, name in [("interval", "Lagrange"), ("triangle", "Lagrange"), ("tetrahedron", "Lagrange"), ("quadrilateral", "Q"), ("hexahedron", "Q")]:
        for order in [1, 2]:
            if (cell, order) != ("hexahedron", 2):
                cfg = [cell, name, order, {}]
                out.append(Group(f"enriched/{cell}/{order}", prop_enriched, enriched_cases(cfg), (8 if quick else 40), 3))
    for cfg in LOCAL if quick else LOCAL + [SLOW]:
        cs = local_cases(cfg, quick)
        for m in range(0, len(cs), 3):
            out.append(Group(f"local/{elems.cfg_name(cfg)}/{m}", prop_library, cs[m : m + 3], 3, 5))
    for c in ["none", "value", "nest"]:
        out.append(Group(f"allequal/{c}", prop_allequal, allequal_cases(c), 80 * k, 2))
    for c in ["expr", "length"]:
        out.append(Group(f"allequal/finding {c}", prop_allequal, fixed_allequal(c), 1, 1))
    out.append(Group("finding/unattached", prop_unattached, [{"cfg": c, "declare": d} for c, d in UNATTACHED], 1, 2))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C21", make_groups, RULE))

"""C07: reference cells describe their geometry consistently on any vertices."""

import itertools
import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

from hypothesis import strategies as st

from vlib import core, gen, geo, num
from vlib.core import Group, check


import sympy
from symfem import create_reference
from symfem import geometry as sgeo
from symfem.functions import ScalarFunction, parse_function_input
from symfem.references import NonDefaultReferenceError

RULE = (
    "a case is (cell type, exact rational affine vertices in some geometric dimension, query points and "
    "functions); non-trivial if the vertices are not the default ones or the query point is not a vertex; "
    "the oracle is the exact rational geometry of vlib/geo.py"
)
CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
X = num.X
REFUSED = (NotImplementedError, NonDefaultReferenceError)


def ref_of(case, form=0):
    cell = case["cell"]
    vs = gen.verts_of(case["map"], cell)
    return create_reference(cell, vertices_in(vs, form)), vs


def vertices_in(vs, form):
    if form == 1:
        return [list(num.RP(v)) for v in vs]
    if form == 2:
        return tuple(tuple(int(c) if c.denominator == 1 else num.R(c) for c in v) for v in vs)
    return tuple(num.RP(v) for v in vs)


def exact(e):
    e = sympy.sympify(e)
    if not e.is_Rational:
        e = sympy.nsimplify(sympy.simplify(e))
    check(e.is_Rational, f"expected a rational number, got {e}")
    return geo.F(e)


def pt(p):
    return tuple(exact(c) for c in p)


def at(m, p):
    """Value of a map (tuple of expressions in x, y, z) at an exact point."""
    s = {v: num.R(c) for v, c in zip(X, p)}
    return tuple(geo.F(sympy.sympify(c).subs(s, simultaneous=True)) for c in m)


def sq_equal(value, square, what):
    """value >= 0 and value^2 == square, exactly."""
    v = sympy.sympify(value)
    check(float(v) >= 0, f"{what} is negative: {v}")
    d = sympy.nsimplify(sympy.expand(v**2)) - num.R(square)
    check(sympy.simplify(d) == 0, f"{what} is {v}, its square should be {square}")


def dot(u, v):
    return sum((a * b for a, b in zip(u, v)), geo.Fr(0))


def sub(u, v):
    return tuple(a - b for a, b in zip(u, v))


def gram(cell, vs):
    ax = [sub(vs[i], vs[0]) for i in geo.AXES[cell]]
    return ax, geo.det([[dot(a, b) for b in ax] for a in ax])


def basics(case, ctx):
    cell = case["cell"]
    ref, vs = ref_of(case, case["form"])
    t, g = geo.TDIM[cell], len(vs[0])
    ctx.label(f"cell:{cell}", f"gdim:{g}")
    check(ref.name == cell and ref.tdim == t and ref.gdim == g, f"{cell}: name {ref.name}, tdim {ref.tdim}, gdim {ref.gdim}")
    check(tuple(pt(v) for v in ref.vertices) == vs, f"{cell}: vertices {ref.vertices}")
    check(pt(ref.origin) == vs[0], "origin is not vertex 0")
    ax, G = gram(cell, vs)
    check([pt(a) for a in ref.axes] == ax, f"axes {ref.axes} are not {ax}")
    check(tuple(pt(v) for v in ref.reference_vertices) == tuple(geo.FV(v) for v in geo.DEFAULT[cell]), "reference_vertices are not the default ones")
    sq_equal(ref.volume(), G * geo.VOLUME[cell] ** 2, "volume")
    sq_equal(ref.jacobian(), G, "jacobian")
    mid = tuple(sum((v[k] for v in vs), geo.Fr(0)) / len(vs) for k in range(g))
    check(pt(ref.midpoint()) == mid, f"midpoint {ref.midpoint()} is not {mid}")
    for a, s in zip(ax, ref.scaled_axes()):
        n = sum(sympy.sympify(c) ** 2 for c in s)
        check(sympy.simplify(n - 1) == 0, "scaled axis is not a unit vector")
        check(abs(sum(float(c) * float(d) for c, d in zip(s, a)) - float(dot(a, a)) ** 0.5) < 1e-9, "scaled axis does not point along the axis")
    if t == 1:
        tg = ref.tangent()
        check(abs(sum(float(c) * float(d) for c, d in zip(tg, ax[0])) - float(dot(ax[0], ax[0])) ** 0.5) < 1e-9 and abs(sum(float(c) ** 2 for c in tg) - 1) < 1e-9, f"tangent {tg} is not the unit vector along {ax[0]}")
    if (t, g) == (1, 2):
        n = ref.normal()
        want = (-ax[0][1], ax[0][0])
        unit_along(n, want)
    if (t, g) == (2, 3):
        u, v = ax
        unit_along(ref.normal(), (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]))
    c = [geo.F(i) for i in case["coords"]][:t]
    want = tuple(o + sum((ci * a[k] for ci, a in zip(c, ax)), geo.Fr(0)) for k, o in enumerate(vs[0]))
    check(pt(ref.get_point(tuple(num.R(i) for i in c))) == want, "get_point is not origin + sum of coordinates times axes")
    dr = ref.default_reference()
    check(type(dr) is type(ref) and tuple(pt(v) for v in dr.vertices) == tuple(geo.FV(v) for v in geo.DEFAULT[cell]), "default_reference is wrong")
    ents = [e for layer in ref.z_ordered_entities() for e in layer]
    every = [(d, i) for d in range(t + 1) for i in range(len(geo.entities(cell, d)))]
    check(sorted(ents) == sorted(every), "z_ordered_entities does not list every sub-entity once")
    if t == 2:
        ents = [e for layer in ref.z_ordered_entities_extra_dim() for e in layer]
        check(sorted(ents) == sorted(every), "z_ordered_entities_extra_dim does not list every sub-entity once")
        cw = [pt(v) for v in ref.clockwise_vertices]
        edges = {frozenset((vs[a], vs[b])) for a, b in geo.EDGES[cell]}
        check(len(cw) == len(vs) and {frozenset(p) for p in zip(cw, cw[1:] + cw[:1])} == edges, "clockwise_vertices does not go round the cell")
    ctx.count(10)


def unit_along(n, want):
    ln = float(dot(want, want)) ** 0.5
    check(len(n) == len(want) and all(abs(float(a) - float(b) / ln) < 1e-9 for a, b in zip(n, want)), f"normal {n} is not the unit vector along {want}")


def topology(case, ctx):
    cell = case["cell"]
    ref, vs = ref_of(case)
    t = geo.TDIM[cell]
    default = [geo.FV(v) for v in geo.DEFAULT[cell]]
    for d in range(t + 1):
        ents = geo.entities(cell, d)
        check(tuple(tuple(e) for e in ref.sub_entities(d)) == ents, f"sub_entities({d}) of {cell} are {ref.sub_entities(d)}")
        check(tuple(tuple(e) for e in ref.sub_entities(codim=t - d)) == ents, f"sub_entities(codim={t - d}) of {cell}")
        check(ref.sub_entity_count(d) == len(ents) and ref.sub_entity_count(codim=t - d) == len(ents), f"sub_entity_count({d})")
        for i, e in enumerate(ents):
            kind = "point" if d == 0 else geo.cell_by_nverts(d, len(e)) if d < t else cell
            s = ref.sub_entity(d, i)
            check(s.name == kind and s.tdim == d, f"sub_entity({d}, {i}) of {cell} is a {s.name}")
            check(tuple(pt(v) for v in s.vertices) == tuple(vs[k] for k in e), f"sub_entity({d}, {i}) has vertices {s.vertices}")
            s = ref.sub_entity(d, i, True)
            check(s.name == kind and tuple(pt(v) for v in s.vertices) == tuple(default[k] for k in e), f"sub_entity({d}, {i}, True) has vertices {s.vertices}")
            ctx.count(4)
            # the sub-entities of a sub-entity are sub-entities of the cell
            for dd in range(d):
                for j in range(s.sub_entity_count(dd)):
                    got = frozenset(e[k] for k in s.sub_entities(dd)[j])
                    check(got in [frozenset(q) for q in geo.entities(cell, dd)], f"sub-entity {j} of dimension {dd} of sub_entity({d}, {i}) of {cell} is not in the cell")
    if len(ref.sub_entities(0)) and t > 0:
        # every facet's vertices lie on it: no other vertex is in its hull
        for e in geo.entities(cell, t - 1):
            if t > 1:
                kind = geo.cell_by_nverts(t - 1, len(e))
                on = {k for k, v in enumerate(vs) if geo.in_cell([vs[m] for m in e], kind, v)}
                if on != set(e):
                    raise core.HarnessError("topology tables")
    ctx.label(f"cell:{cell}")


def maps(case, ctx):
    cell = case["cell"]
    vs = gen.verts_of(case["map"], cell)
    aff = gen.aff_of(case["map"])
    d = create_reference(cell)
    ref = create_reference(cell, vertices_in(vs, 0))
    t = geo.TDIM[cell]
    vin = vertices_in(vs, case["form"])
    pairs = [("get_map_to", d.get_map_to(vin), "get_inverse_map_to", None), ("get_map_to_self", ref.get_map_to_self(), "get_inverse_map_to_self", None)]
    pairs[1] = pairs[1][:3] + (ref.get_inverse_map_to_self(),)
    try:
        pairs[0] = pairs[0][:3] + (d.get_inverse_map_to(vin),)
    except AssertionError:
        check(len(vs[0]) > t, f"get_inverse_map_to of a {cell} is refused")
        ctx.label("get_inverse_map_to refused (embedded)")
    pts = [geo.FV(v) for v in geo.DEFAULT[cell]] + [geo.FV(p)[:t] for p in case["pts"]]
    ctx.label(f"cell:{cell}", f"gdim:{len(vs[0])}")
    for fn, fwd, inn, inv in pairs:
        check(len(fwd) == len(vs[0]), f"{fn} has {len(fwd)} components")
        for p in pts:
            q = at(fwd, p)
            ctx.count()
            check(q == aff(p), f"{fn} of a {cell} sends {p} to {q}, not {aff(p)}")
            if inv is not None:
                check(len(inv) == t, f"{inn} has {len(inv)} components")
                b = at(inv, q)
                check(b == p, f"{inn} of a {cell} sends {q} to {b}, not {p}")
    # asking again gives the same map
    check(tuple(ref.get_map_to_self()) == tuple(pairs[1][1]), "get_map_to_self changes")
    same = d.get_map_to(tuple(geo.DEFAULT[cell]))
    check(all(at(same, p) == p for p in pts), "the map to the reference cell itself is not the identity")


def bilinear(case, ctx):
    """Quadrilaterals that are not parallelograms (and solids): vertices still go to vertices."""
    cell = case["cell"]
    vs = [tuple(geo.F(a) + geo.F(b) for a, b in zip(v, o)) for v, o in zip(gen.verts_of(case["map"], cell), case["off"])]
    fwd = create_reference(cell).get_map_to(tuple(num.RP(v) for v in vs))
    ctx.label(f"cell:{cell}")
    for p, v in zip(geo.DEFAULT[cell], vs):
        q = at(fwd, geo.FV(p))
        ctx.count()
        check(q == v, f"get_map_to of a {cell} sends the vertex {p} to {q}, not {v}")


def query_point(case, cell, vs):
    """A point with barycentric-like weights on some sub-entity, moved off it by `off` axes."""
    d, i = case["entity"]
    ents = geo.entities(cell, d)
    e = ents[i % len(ents)]
    w = [geo.F(c) for c in case["w"]][: len(e)]
    w += [geo.Fr(1)] * (len(e) - len(w))
    s = sum(w)
    if s == 0:
        w, s = [geo.Fr(1)] * len(e), geo.Fr(len(e))
    p = [sum((wi * vs[k][c] for wi, k in zip(w, e)), geo.Fr(0)) / s for c in range(len(vs[0]))]
    return tuple(a + geo.F(b) for a, b in zip(p, case["shift"]))


def membership(case, ctx):
    cell = case["cell"]
    ref, vs = ref_of(case)
    p = query_point(case, cell, vs)
    q = num.RP(p) if case["form"] else tuple(int(c) if c.denominator == 1 else num.R(c) for c in p)
    t = geo.TDIM[cell]
    inside = geo.in_cell(vs, cell, p)
    ctx.label(f"cell:{cell}", f"gdim:{len(vs[0])}", "inside" if inside else "outside")
    if p in vs:
        ctx.trivial("vertex")
    try:
        got = ref.contains(q)
    except REFUSED:
        got = None
        ctx.label("contains refused")
        check(vs != tuple(geo.FV(v) for v in geo.DEFAULT[cell]), "contains is refused on the reference cell")
    if got is not None:
        check(bool(got) == inside, f"contains({p}) of a {cell} {vs} is {got}")
    check(bool(ref.at_vertex(q)) == (p in vs), f"at_vertex({p}) of {vs} is {ref.at_vertex(q)}")
    on = {}
    for d in (1, 2):
        on[d] = any(geo.in_cell([vs[k] for k in e], geo.cell_by_nverts(d, len(e)) if d < t else cell, p) for e in geo.entities(cell, d))
    check(bool(ref.on_edge(q)) == on[1], f"on_edge({p}) of a {cell} {vs} is {ref.on_edge(q)}")
    if t >= 2:
        check(bool(ref.on_face(q)) == on[2], f"on_face({p}) of a {cell} {vs} is {ref.on_face(q)}")
    ctx.label(f"at_vertex:{p in vs}", f"on_edge:{on[1]}", f"on_face:{on[2]}")
    ctx.count(4)


def points_in(case, ctx):
    """The functions of symfem.geometry, at exact and at floating point points."""
    cell = case["cell"]
    vs = gen.verts_of(case["map"], cell)
    p = query_point(case, cell, vs)
    fn = {"interval": sgeo.point_in_interval, "triangle": sgeo.point_in_triangle, "quadrilateral": sgeo.point_in_quadrilateral, "tetrahedron": sgeo.point_in_tetrahedron}[cell]
    V = tuple(num.RP(v) for v in vs)
    if cell == "quadrilateral" and case["convex"]:
        # any convex quadrilateral
        a, b = [geo.F(c) for c in case["convex"]]
        e1, e2 = sub(vs[1], vs[0]), sub(vs[2], vs[0])
        v3 = tuple(o + a * i + b * j for o, i, j in zip(vs[0], e1, e2))
        if case["at3"]:
            p = v3
        vs = vs[:3] + (v3,)
        V = tuple(num.RP(v) for v in vs)
        inside = geo.in_cell(vs[:3], "triangle", p) or geo.in_cell(vs[1:], "triangle", p)
        ctx.label("convex quadrilateral")
    else:
        inside = geo.in_cell(vs, cell, p)
    ctx.label(f"cell:{cell}", "inside" if inside else "outside")
    check(bool(fn(num.RP(p), V)) == inside, f"{fn.__name__}({p}, {vs}) is {not inside}")
    ctx.count()
    if inside:
        f = tuple(sympy.Float(float(c)) for c in p)
        check(bool(fn(f, V)), f"{fn.__name__} says that the floating point point {f} is not in {vs}")
        F = tuple(tuple(sympy.Float(float(c)) for c in v) for v in vs)
        check(bool(fn(f, F)), f"{fn.__name__} says that {f} is not in {F}")
        ctx.label("float")


def lattice(case, ctx):
    cell = case["cell"]
    ref, vs = ref_of(case)
    n = case["n"]
    ctx.label(f"cell:{cell}")
    refused = (NotImplementedError, AssertionError)
    default = vs == tuple(geo.FV(v) for v in geo.DEFAULT[cell])
    try:
        pts = ref.make_lattice(n)
    except refused:
        check(not default or cell == "pyramid", f"make_lattice is refused on the reference {cell}")
        ctx.label("lattice refused")
        pts = None
    if pts is not None:
        P = [pt(p) for p in pts]
        check(len(P) > 0 and len(set(P)) == len(P), "lattice points are repeated")
        for p in P:
            c = geo.local_coords(vs, cell, p)
            check(c is not None and geo.in_reference(cell, c), f"lattice point {p} is not in the {cell}")
            facets = geo.entities(cell, geo.TDIM[cell] - 1)
            for e in facets:
                k = "point" if geo.TDIM[cell] == 1 else geo.cell_by_nverts(geo.TDIM[cell] - 1, len(e))
                inn = p == vs[e[0]] if k == "point" else geo.in_cell([vs[i] for i in e], k, p)
                check(not inn, f"lattice point {p} is on the boundary of the {cell}")
            ctx.count()
        fl = ref.make_lattice_float(n)
        check(len(fl) == len(P) and all(abs(float(a) - float(b)) < 1e-12 for p, q in zip(fl, P) for a, b in zip(p, q)), "make_lattice_float differs from make_lattice")
    try:
        pts, pairs = ref.make_lattice_with_lines(n + 1)
    except refused:
        check(not default or geo.TDIM[cell] == 3, f"make_lattice_with_lines is refused on the reference {cell}")
        return
    P = [pt(p) for p in pts]
    check(len(set(P)) == len(P), "lattice points are repeated")
    for p in P:
        check(geo.in_cell(vs, cell, p), f"lattice point {p} is not in the {cell}")
    check(all(v in P for v in vs), "the lattice with lines does not contain the vertices")
    m = n + 1
    want = {"interval": m, "triangle": m * (m + 1) // 2, "quadrilateral": m * m}[cell]
    check(len(P) == want, f"{len(P)} points in a lattice with {m} points along each edge")
    for a, b in pairs:
        check(0 <= a < len(P) and 0 <= b < len(P) and a != b, f"line {a}, {b} between {len(P)} points")
    check(len({frozenset(p) for p in pairs}) == len(pairs), "a line is repeated")
    # the lines connect neighbouring lattice points and cover all edges of the cell
    for a, b in pairs:
        ca, cb = geo.local_coords(vs, cell, P[a]), geo.local_coords(vs, cell, P[b])
        if n:
            check(all(abs(i - j) <= geo.Fr(1, n) for i, j in zip(ca, cb)), f"a line joins {P[a]} and {P[b]}, which are not neighbours")
    have = {frozenset((P[a], P[b])) for a, b in pairs}
    for a, b in geo.EDGES[cell]:
        if n:
            line = [tuple(i + (j - i) * geo.Fr(k, n) for i, j in zip(vs[a], vs[b])) for k in range(n + 1)]
            check(all(frozenset(q) in have for q in zip(line, line[1:])), f"the lines do not cover the edge {a}, {b}")
    fl, pf = ref.make_lattice_with_lines_float(n + 1)
    check(list(pf) == list(pairs) and len(fl) == len(P) and all(abs(float(a) - float(b)) < 1e-12 for p, q in zip(fl, P) for a, b in zip(p, q)), "make_lattice_with_lines_float differs")


def limits(case, ctx):
    """Integrating over integration_limits is integrating over the reference cell."""
    cell = case["cell"]
    ref, vs = ref_of(case)
    t = geo.TDIM[cell]
    p = gen.pd(case["poly"])
    want = num.pintegral_ref(p, cell)
    vars = [num.T, num.X, sympy.symbols("a b c")][case["vars"]]
    expr = num.pto_sympy(p, vars)
    lim = ref.integration_limits(vars) if case["vars"] else ref.integration_limits()
    ctx.label(f"cell:{cell}")
    check(len(lim) == t and {li[0] for li in lim} == set(vars[:t]), f"integration_limits {lim}")
    if case["how"]:
        got = ScalarFunction(expr).integrate(*lim).as_sympy()
    else:
        got = sympy.integrate(expr, *lim)
    ctx.count()
    check(exact(got) == want, f"the integral of {expr} over a {cell} by integration_limits is {got}, not {want}")


def equality(case, ctx):
    cell = case["cell"]
    a, vs = ref_of(case, 0)
    b, _ = ref_of(case, case["form"])
    check(a == b and hash(a) == hash(b) and not (a != b), "two references with the same cell and vertices differ")
    # different vertices
    k = case["vertex"] % len(vs)
    ws = [list(v) for v in vs]
    ws[k][case["comp"] % len(vs[0])] += geo.F(case["by"])
    c = create_reference(cell, tuple(num.RP(v) for v in ws))
    check(not (a == c) and a != c, "references with different vertices are equal")
    if len(vs) > 1:
        perm = list(vs)
        perm[0], perm[-1] = perm[-1], perm[0]
        e = create_reference(cell, tuple(num.RP(v) for v in perm))
        check(a != e, "references with permuted vertices are equal")
    if cell == "tetrahedron":
        check(a != create_reference("quadrilateral", a.vertices), "a tetrahedron equals a quadrilateral")
    check((a == "x") is False and (a == None) is False and (a == a.vertices) is False, "a reference equals something else")  # noqa: E711
    check(len({a, b}) == 1 and c not in {a, b}, "references misbehave in a set")
    # using it does not change it
    h = hash(a)
    a.volume(), a.midpoint(), a.get_map_to_self(), [a.sub_entity(1, 0), a.sub_entities(0)]
    check(a == b and hash(a) == h, "a reference changes when it is used")
    d = create_reference(cell)
    check((a == d) == (vs == tuple(geo.FV(v) for v in geo.DEFAULT[cell])), "comparison with the default reference")
    ctx.label(f"cell:{cell}")
    ctx.count(8)


def point_cell(case, ctx):
    p = tuple(num.R(c) for c in case["p"])
    q = tuple(num.R(c) for c in case["q"])
    r = create_reference("point", (p,))
    check(r.tdim == 0 and r.gdim == len(p) and r.name == "point", "a point's dimensions")
    check(r.volume() == 0, "a point's volume")
    check(r.contains(p) and bool(r.contains(q)) == (p == q), "a point contains another point")
    check(r.at_vertex(p) and bool(r.at_vertex(q)) == (p == q), "at_vertex of a point")
    check(tuple(r.midpoint()) == p, "midpoint of a point")
    check(tuple(r.get_map_to_self()) == p and tuple(create_reference("point").get_map_to((p,))) == p, "map to a point")
    ctx.label(f"gdim:{len(p)}")
    lim = r.integration_limits(num.T)
    check([(a, geo.F(b)) for a, b in lim] == [(a, geo.F(b)) for a, b in zip(num.T, case["p"])], f"integration_limits of the point {p} are {lim}")
    ctx.count(8)


def intersect(case, ctx):
    cell1, cell2 = case["cells"]
    v1, v2 = gen.verts_of(case["map"], cell1), gen.verts_of(case["map2"], cell2)
    if case["snap"] is not None:  # share an edge or be nested
        k = len(geo.DEFAULT[cell2])
        w = list(v2)
        if cell1 == cell2 == "triangle":
            if case["snap"] == 0:
                w = [v1[0], v1[1], v1[2]]
            elif case["snap"] == 1:
                w = [v1[1], v1[0], tuple(a + b - c for a, b, c in zip(v1[0], v1[1], v1[2]))]
            else:
                w = [v1[0], tuple((a + b) / 2 for a, b in zip(v1[0], v1[1])), v1[2]]
        v2 = tuple(w[:k])
    r1 = create_reference(cell1, tuple(num.RP(v) for v in v1))
    r2 = create_reference(cell2, tuple(num.RP(v) for v in v2))
    ctx.label(f"cells:{cell1},{cell2}")
    try:
        got = r1.intersection(r2)
    except NotImplementedError:
        ctx.trivial("not supported")
        return
    # exact points of the first cell
    grid = [geo.interior_point(cell1, w) for w in itertools.product([1, 3], repeat=len(v1))]
    aff = gen.aff_of(case["map"])
    pts = [aff(p) for p in grid]
    aff2 = geo.Affine.from_vertices(cell2, v2)
    pts += [aff2(geo.interior_point(cell2, w)) for w in itertools.product([1, 3], repeat=len(v2))]
    both = [p for p in pts if geo.in_cell(v1, cell1, p) and geo.in_cell(v2, cell2, p)]
    ctx.label("intersection:" + ("None" if got is None else got.name))
    if got is None:
        for p in both:
            strict = all(not geo.in_cell([v[k] for k in e], geo.cell_by_nverts(len(v1[0]) - 1, len(e)), p) for v, c in ((v1, cell1), (v2, cell2)) for e in geo.entities(c, len(v1[0]) - 1))
            check(not strict, f"intersection of {v1} and {v2} is None but {p} is inside both")
    else:
        iv = tuple(pt(v) for v in got.vertices)
        for v in iv:
            check(geo.in_cell(v1, cell1, v) and geo.in_cell(v2, cell2, v), f"the intersection has a vertex {v} outside one of the cells")
        for p in both:
            check(geo.in_cell(iv, got.name, p), f"{p} is in both cells but not in their intersection")
    ctx.count(len(both) + 1)


def polyset(case, ctx):
    """map_polyset_from_default gives the functions composed with the inverse map."""
    cell = case["cell"]
    ref, vs = ref_of(case)
    aff = gen.aff_of(case["map"])
    t = geo.TDIM[cell]
    fs = [gen.psym(case["poly"]), tuple([gen.psym(case["poly"]), sympy.Integer(2)])]
    got = ref.map_polyset_from_default(list(fs))
    check(len(got) == 2, "map_polyset_from_default returns another number of functions")
    for c in case["pts"]:
        p = geo.FV(c)[:t]
        q = aff(p)
        want = num.peval(gen.pd(case["poly"]), p + (0,) * (3 - t))
        a = num.exact_at(parse_function_input(got[0]), q)
        b = num.exact_at(parse_function_input(got[1]), q)
        ctx.count(2)
        check(exact(a[0]) == want and exact(b[0]) == want and b[1] == 2, f"mapped function at {q} is {a}, not {want}")
    ctx.label(f"cell:{cell}")


def parse_points(case, ctx):
    p = tuple(num.R(c) for c in case["p"])
    forms = [p, list(p), sympy.Matrix([list(p)]), sympy.Matrix([[c] for c in p]), tuple(int(c) if c.is_Integer else c for c in p)]
    for f in forms:
        got = sgeo.parse_point_input(f)
        check(isinstance(got, tuple) and tuple(got) == p and all(isinstance(c, sympy.Expr) for c in got), f"parse_point_input({f}) is {got}")
        got = sgeo.parse_set_of_points_input([f, list(p)])
        check(got == (p, p), f"parse_set_of_points_input is {got}")
        ctx.count(2)


# ------------------------------------------------------------------ strategies
GDIMS = {"interval": [1, 2, 3], "triangle": [2, 3], "quadrilateral": [2, 3], "tetrahedron": [3], "hexahedron": [3], "prism": [3], "pyramid": [3]}


def ident(cell):
    t = geo.TDIM[cell]
    return {"A": [[1 if i == j else 0 for j in range(t)] for i in range(t)], "b": [0] * t}


@st.composite
def placed(draw, cell, extra, default=False, gdims=None):
    g = draw(st.sampled_from(gdims or GDIMS[cell]))
    m = ident(cell) if default and draw(st.integers(0, 3)) == 0 else draw(gen.affine(geo.TDIM[cell], g))
    return {"cell": cell, "map": m, **{k: draw(v) for k, v in extra.items()}}


def point3():
    return st.lists(gen.rats(), min_size=3, max_size=3)


@st.composite
def queries(draw, cell, gdims=None):
    case = draw(placed(cell, {}, True, gdims))
    t, g = geo.TDIM[cell], len(case["map"]["b"])
    d = draw(st.integers(0, t))
    shift = [0] * g
    if draw(st.integers(0, 2)) == 0:
        shift[draw(st.integers(0, g - 1))] = draw(st.sampled_from(["1/2", 1, "-1/3", -1, 2, "1/10"]))
    case.update(
        entity=[d, draw(st.integers(0, 11))], shift=shift, form=draw(st.integers(0, 1)),
        w=[draw(st.sampled_from([0, 1, 2, 3, 5, -1, "1/2"])) for _ in range(len(geo.DEFAULT[cell]))],
        convex=draw(st.sampled_from([None, ["2", "2"], ["1/2", "3/4"], ["3", "1/2"], ["2/3", "2/3"]])), at3=draw(st.integers(0, 9)) == 0,
    )  # fmt: skip
    return case


def make_groups(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for c in CELLS:
        out.append(Group(f"basics/{c}", basics, placed(c, {"form": st.integers(0, 2), "coords": point3()}), 20 * k, 3))
        out.append(Group(f"topology/{c}", topology, placed(c, {}), 4 * k, 3))
        out.append(Group(f"maps/{c}", maps, placed(c, {"form": st.integers(0, 2), "pts": st.lists(point3(), min_size=1, max_size=2)}), 20 * k, 3))
        out.append(Group(f"membership/{c}", membership, queries(c), 80 * k, 4))
        out.append(Group(f"lattice/{c}", lattice, placed(c, {"n": st.integers(1, 5)}, True), 8 * k, 4))
        out.append(Group(f"limits/{c}", limits, placed(c, {"poly": gen.polynomial(geo.TDIM[c], 4), "vars": st.integers(0, 2), "how": st.booleans()}), 12 * k, 4))
        out.append(Group(f"equality/{c}", equality, placed(c, {"form": st.integers(0, 2), "vertex": st.integers(0, 7), "comp": st.integers(0, 2), "by": gen.nonzero()}, True), 12 * k, 2))
        out.append(Group(f"polyset/{c}", polyset, placed(c, {"poly": gen.polynomial(geo.TDIM[c], 3), "pts": st.lists(point3(), min_size=1, max_size=2)}, True, [geo.TDIM[c]]), 10 * k, 2))
        if c in ("interval", "triangle", "quadrilateral", "tetrahedron"):
            out.append(Group(f"point_in/{c}", points_in, queries(c, [geo.TDIM[c]]), 80 * k, 2))
        if c in ("quadrilateral", "hexahedron", "prism"):
            nv, g = len(geo.DEFAULT[c]), 3
            off = st.lists(st.lists(st.sampled_from([0, 1, "1/2", "-1/4"]), min_size=g, max_size=g), min_size=nv, max_size=nv)
            out.append(Group(f"bilinear/{c}", bilinear, placed(c, {"off": off}), 10 * k, 2))
    for a, b in (("triangle", "triangle"), ("tetrahedron", "tetrahedron"), ("quadrilateral", "triangle")):
        t = geo.TDIM[a]
        out.append(Group(f"intersect/{a},{b}", intersect, st.fixed_dictionaries({"cells": st.just([a, b]), "map": gen.affine(t), "map2": gen.affine(t), "snap": st.sampled_from([None, 0, 1, 2])}), 25 * k, 4))
    for g in (1, 2, 3):
        ps = st.lists(gen.rats(), min_size=g, max_size=g)
        out.append(Group(f"point/{g}", point_cell, st.fixed_dictionaries({"p": ps, "q": ps}), 10 * k, 1))
        out.append(Group(f"parse/{g}", parse_points, st.fixed_dictionaries({"p": ps}), 10 * k, 1))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C07", make_groups, RULE))

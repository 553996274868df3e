"""C09: piecewise functions behave as the function they represent piece by piece."""

import itertools
import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import sympy
from hypothesis import strategies as st
from symfem import create_reference
from symfem.functions import AnyFunction, MatrixFunction, ScalarFunction, VectorFunction
from symfem.piecewise_functions import PiecewiseFunction

from vlib import core, gen, geo, num
from vlib.core import Group, check
from vlib.ratmodel import RF, Undefined

from . import c08

RULE = (
    "a case is a generated partition of a cell (placed by a generated affine map), polynomial pieces and an "
    "operation, query point, substitution or domain of integration; non-trivial if there are at least two "
    "pieces with different functions; the oracle applies the operation to exact rational models of each piece"
)
X = num.X
Fr = geo.Fr


# ------------------------------------------------------------------ partitions
def lerp(a, b, t):
    return tuple(i + (j - i) * t for i, j in zip(a, b))


def mean(*ps):
    return tuple(sum(c) / len(ps) for c in zip(*ps))


def partition(cell, how, a, b):
    """Vertex tuples of the pieces, on the default cell. a, b in (0, 1)."""
    V = [geo.FV(v) for v in geo.DEFAULT[cell]]
    if cell == "interval":
        if how == 0:
            return [(V[0], (a,)), ((a,), V[1])]
        if how == 1:
            lo, hi = sorted([a, b])
            if lo == hi:
                return [(V[0], (a,)), (V[1], (a,))]
            return [((lo,), V[0]), ((lo,), (hi,)), ((hi,), V[1])]
        return [(V[0], V[1])]
    if cell == "triangle":
        p, q, r = V
        if how == 0:
            m = lerp(q, r, a)
            return [(p, q, m), (r, p, m)]
        if how == 1:
            m = lerp(p, lerp(q, r, a), b)
            return [(m, p, q), (p, r, m), (q, m, r)]
        if how == 2:
            x, y, z = lerp(q, r, a), lerp(p, r, b), lerp(p, q, Fr(1, 2))
            return [(p, z, y), (z, q, x), (y, x, r), (x, y, z)]
        if how == 3:
            m = mean(p, q, r)
            x, y, z = mean(q, r), mean(p, r), mean(p, q)
            return [(m, p, z), (m, z, q), (m, q, x), (m, x, r), (m, r, y), (m, y, p)]
        return [(p, q, r)]
    if cell == "quadrilateral":
        p, q, r, s = V
        if how == 0:
            return [(p, q, r), (q, r, s)]
        if how == 1:
            return [(p, q, s), (p, s, r)]
        if how == 2:
            x, y = lerp(p, q, a), lerp(r, s, a)
            return [(p, x, r, y), (x, q, y, s)]
        if how == 3:
            m = (a, b)
            return [(p, q, m), (q, s, m), (m, s, r), (r, m, p)]
        x, y = lerp(p, q, a), lerp(r, s, a)
        return [(p, x, r, y), (x, q, y), (q, s, y)]
    p, q, r, s = V
    if how == 0:
        m = lerp(r, s, a)
        return [(p, q, r, m), (p, m, q, s)]
    if how == 1:
        m = lerp(p, lerp(q, lerp(r, s, Fr(1, 2)), a), b)
        return [(m, p, q, r), (m, p, q, s), (p, m, r, s), (q, r, s, m)]
    return [(p, q, r, s)]


def pieces_of(case):
    cell = case["cell"]
    aff = gen.aff_of(case["map"])
    ref = partition(cell, case["how"], geo.F(case["ab"][0]), geo.F(case["ab"][1]))
    out = [tuple(aff(v) for v in vs) for vs in ref]
    return out


def kind_of(vs):
    return geo.cell_by_nverts(len(vs[0]), len(vs))


def leaf_for(case, i, which="f"):
    fs = case[which]
    return fs[i % len(fs)]


def build(case, which="f", order=None):
    shapes = pieces_of(case)
    idx = range(len(shapes)) if order is None else order
    d = {}
    for i in idx:
        d[tuple(num.RP(v) for v in shapes[i])] = c08.leaf_value(leaf_for(case, i, which), "fn" if case.get("forms", 0) == 0 else None)
    f = PiecewiseFunction(d, geo.TDIM[case["cell"]])
    return f, shapes, [c08.leaf_model(leaf_for(case, i, which)) for i in range(len(shapes))]


def models_differ(ms):
    return any(not all(a.same(b) for a, b in zip(c08.mflat(ms[0]), c08.mflat(m))) for m in ms[1:])


def note(case, ctx, ms):
    ctx.label(f"cell:{case['cell']}", f"how:{case['how']}", f"kind:{case['f'][0]['k']}", f"pieces:{len(ms)}")
    if len(ms) < 2 or not models_differ(ms):
        ctx.trivial("one piece or equal pieces")


def key_of(vs):
    return tuple(tuple(geo.F(c) for c in v) for v in vs)


def check_pieces(g, shapes, wants, ctx, what):
    check(isinstance(g, PiecewiseFunction), f"{what} is a {type(g).__name__}")
    got = {key_of(k): v for k, v in g.pieces.items()}
    check(set(got) == set(shapes) and len(g.pieces) == len(shapes), f"{what}: pieces {sorted(map(str, got))}")
    flags = [g.is_scalar, g.is_vector, g.is_matrix]
    check(flags == [wants[0][0] == k for k in "svm"], f"{what}: type flags {flags}")
    for vs, w in zip(shapes, wants):
        c08.same(got[vs], w, ctx, f"{what} on {vs}")
    if wants[0][0] == "v":
        check(len(g) == len(wants[0][1]) and tuple(g.shape) == (len(wants[0][1]),), f"{what}: length {len(g)}")


def snap(f):
    if isinstance(f, PiecewiseFunction):
        return [(k, c08.snap(v)) for k, v in f.pieces.items()]
    return c08.snap(f)


# ------------------------------------------------------------------ properties
def binary(case, ctx):
    op = case["op"]
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    if case["other"] == "pw":
        g, _, ns = build(case, "g")
    else:
        leaf = case["g"][0]
        g = c08.leaf_value(leaf, None if case["other"] == "raw" else "fn")
        ns = [c08.leaf_model(leaf)] * len(shapes)
    if op == "matmul" and case["swap"] and case["other"] != "pw":
        # the left operand is the one that is not piecewise
        leaf = case["f"][0]
        f, ms = c08.as_fn(c08.leaf_value(leaf, "fn")), [c08.leaf_model(leaf)] * len(shapes)
        g, _, ns = build(case, "g")
        a, b, ma, mb = f, g, ms, ns
    else:
        a, b, ma, mb = (g, f, ns, ms) if case["swap"] and op != "matmul" else (f, g, ms, ns)
    if op in ("dot", "cross") and not isinstance(a, AnyFunction):
        a, b, ma, mb = b, a, mb, ma
    if op == "cross" and len(c08.mflat(ma[0])) == 3 and not isinstance(a, PiecewiseFunction):
        a, b, ma, mb = b, a, mb, ma  # plain x piecewise in 3D is refused by construction
    if isinstance(a, sympy.MatrixBase):
        a, b, ma, mb = b, a, mb, ma
    raw = (list, tuple, sympy.MatrixBase)
    if op in ("mul", "truediv", "matmul") and (isinstance(a, raw) or isinstance(b, raw)):
        a, b = (c08.as_fn(a) if isinstance(a, raw) else a), (c08.as_fn(b) if isinstance(b, raw) else b)
    ctx.label(f"op:{op}", f"operands:{type(a).__name__},{type(b).__name__}")
    s = snap(a), snap(b)
    try:
        wants = [c08.model_op(op, x, y) for x, y in zip(ma, mb)]
    except Undefined:
        ctx.trivial("division by zero")
        return
    got = c08.apply_op(op, a, b)
    if not isinstance(got, PiecewiseFunction) and not models_differ(ms) and not models_differ(ns):
        c08.same(got, wants[0], ctx, f"{op}")  # sympy took the single expression
    else:
        check_pieces(got, shapes, wants, ctx, f"{op} of {type(a).__name__} and {type(b).__name__}")
    check((snap(a), snap(b)) == s, f"{op} modified an operand")


def unary(case, ctx):
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    s = snap(f)
    k = ms[0][0]

    def each(what, g, fn):
        try:
            w = [fn(m) for m in ms]
        except Undefined:
            return
        check_pieces(g, shapes, w, ctx, what)

    each("negation", -f, lambda m: c08.mmap(lambda c: -c, m))
    e = case["k"]
    each(f"power {e}", f**e, lambda m: c08.mmap(lambda c: c**e, m))
    for i in range(3):
        each(f"derivative {i}", f.diff(X[i]), lambda m: c08.mmap(lambda c: c.diff(i), m))
    t = geo.TDIM[case["cell"]]
    if k == "s":
        for d in (t, 3):
            each("grad", f.grad(d), lambda m: ("v", [m[1].diff(i) for i in range(d)]))
        each("jacobian", f.jacobian(t), lambda m: ("m", [[m[1].diff(i).diff(j) for j in range(t)] for i in range(t)]))
        i, j = case["ij"]
        each("jacobian_component", f.jacobian_component((i, j)), lambda m: ("s", m[1].diff(i).diff(j)))
        d = [geo.F(c) for c in case["dir"]][:t]

        def dd(m):
            out = RF.const(0)
            for i, c in enumerate(d):
                out = out + m[1].diff(i) * RF.const(c)
            return "s", out

        each("directional derivative", f.directional_derivative(num.RP(d)), dd)
        for name in ("div", "curl", "det", "transpose"):
            c08.refuses(lambda: getattr(f, name)(), f"{name} of a piecewise scalar function")
        c08.refuses(lambda: f[0], "indexing a piecewise scalar function")
    elif k == "v":
        n = len(ms[0][1])
        each("div", f.div(), lambda m: c08.unary_model("div", {}, m))
        if n == 3:
            each("curl", f.curl(), lambda m: c08.unary_model("curl", {}, m))
        for i in range(n):
            each(f"component {i}", f[i], lambda m: ("s", m[1][i]))
        each("last component", f[-1], lambda m: ("s", m[1][-1]))
        if n > 1:
            each("slice", f[1:], lambda m: ("v", m[1][1:]))
        each("dot with itself", f.dot(f), lambda m: c08.model_op("dot", m, m))
        nn = f.norm()
        for vs, m in zip(shapes, ms):
            p = mean(*vs)
            v = float(nn.pieces[tuple(num.RP(v) for v in vs)].subs(X[: len(p)], num.RP(p)).subs(X, (1, 1, 1)[: len(X)]))
            w = float(sum(c.at(tuple(p) + (1,) * (3 - len(p))) ** 2 for c in m[1])) ** 0.5
            check(abs(v - w) <= 1e-9 * max(1, w), f"norm is {v}, not {w}")
    else:
        each("transpose", f.transpose(), lambda m: c08.unary_model("T", {}, m))
        if len(ms[0][1]) == len(ms[0][1][0]):
            each("det", f.det(), lambda m: ("s", c08.rdet(m[1])))
        each("row", f[0], lambda m: ("v", m[1][0]))
        each("entry", f[0, 1], lambda m: ("s", m[1][0][1]))
    g = f.with_floats()
    check(isinstance(g, PiecewiseFunction) and set(g.pieces) == set(f.pieces), "with_floats changes the pieces")
    for vs, m in zip(shapes, ms):
        fl = num.shape_and_flat(g.pieces[tuple(num.RP(v) for v in vs)])[1]
        for c, w in zip(fl, c08.mflat(m)):
            v = float(c.subs(dict(zip(X, num.RP(c08.POINTS[0])))))
            check(abs(v - float(w.at(c08.POINTS[0]))) <= 1e-9 * max(1, abs(v)), "with_floats changes the values")
    check(snap(f) == s, "an operation modified the function")


def inside(vs, p):
    return geo.in_cell(vs, kind_of(vs), p)


def lookup(case, ctx):
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    s = snap(f)
    t = geo.TDIM[case["cell"]]
    # a point of one piece (possibly on its boundary), possibly moved outside
    vs = shapes[case["piece"] % len(shapes)]
    w = [geo.F(c) for c in case["w"]][: len(vs)]
    if sum(w) == 0:
        w = [Fr(1)] * len(vs)
    p = tuple(sum((wi * v[c] for wi, v in zip(w, vs)), Fr(0)) / sum(w) for c in range(t))
    if case["move"]:
        p = tuple(c + geo.F(m) for c, m in zip(p, case["move"]))
    cand = [m for v, m in zip(shapes, ms) if inside(v, p)]
    ctx.label(f"pieces containing the point:{min(len(cand), 3)}")
    q = num.RP(p)
    if not cand:
        ctx.label("outside")
        for bad in (lambda: f.get_piece(q), lambda: f.subs(X[:t], q)):
            try:
                v = bad()
            except NotImplementedError:
                continue
            raise core.Violation(f"the point {p} is outside all pieces, but the function has the value {v!r}")
        return
    # the values some piece containing the point has there
    values = [[c.at(p + (0,) * (3 - t)) for c in c08.mflat(m)] for m in cand]
    free = any(any(any(e[t:]) for e, _ in poly) for leaf in case["f"] for poly in flat_polys(leaf))
    g = f.get_piece(q)
    ok = any(all(num.poly(e) == RF_poly(c) for e, c in zip(num.shape_and_flat(g)[1], c08.mflat(m))) for m in cand)
    check(ok, f"get_piece({p}) is {g}, which is the function of no piece containing the point")
    if free:
        return
    for vals in (q, list(q), VectorFunction(q)):
        v = f.subs(X[:t], vals)
        fl = num.shape_and_flat(v)[1]
        ctx.count()
        check([geo.F(e) for e in fl] in values, f"value at {p} is {fl}, not {values}")
    fq = tuple(sympy.Float(float(c)) for c in p)
    v = [float(e) for e in num.shape_and_flat(f.subs(X[:t], fq))[1]]
    check(any(all(abs(a - float(b)) <= 1e-7 * max(1, abs(a)) for a, b in zip(v, w)) for w in values), f"value at the floating point {fq} is {v}, not {values}")
    if t > 1:  # the variables in another order
        order = list(itertools.permutations(range(t)))[case["perm"] % (2 if t == 2 else 6)]
        v = f.subs(tuple(X[i] for i in order), tuple(q[i] for i in order))
        fl = num.shape_and_flat(v)[1]
        check([geo.F(e) for e in fl] in values, f"value at {p}, substituted in the order {order}, is {fl}, not {values}")
    check(snap(f) == s, "evaluation modified the function")


def flat_polys(leaf):
    return [leaf["p"]] if leaf["k"] == "s" else leaf["p"] if leaf["k"] == "v" else [p for r in leaf["p"] for p in r]


def RF_poly(c):
    return {m: v for m, v in c.n.items() if v}


def symbolic(case, ctx):
    """Substituting expressions acts on each piece."""
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    s = snap(f)
    w = [c08.rf(p) for p in case["with"]]
    e = [gen.psym(p) for p in case["with"]]
    i = case["i"]
    check_pieces(f.subs(X[i], e[i]), shapes, [c08.mmap(lambda c: c.compose({i: w[i]}), m) for m in ms], ctx, f"substituting {e[i]} for {X[i]}")
    t = geo.TDIM[case["cell"]]
    if any(c.free_symbols for c in e[:t]):
        vals = tuple(e[:t])
        want = [c08.mmap(lambda c: c.compose(dict(enumerate(w[:t]))), m) for m in ms]
        for v in (vals, list(vals)):
            check_pieces(f.subs(X[:t], v), shapes, want, ctx, f"substituting {v}")
    check(snap(f) == s, "subs modified the function")


def equality(case, ctx):
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    n = len(shapes)
    f2, _, _ = build(case)
    check((f == f2) is True and (f != f2) is False, "equal piecewise functions are not equal")
    f3, _, _ = build(case, order=list(range(n))[::-1])
    check((f == f3) is True, "the order of the pieces matters in comparisons")
    # the same function plus something on one piece only
    j = case["piece"] % n
    d = {}
    for i, (k, v) in enumerate(f.pieces.items()):
        m = c08.leaf_value(leaf_for(case, i), "fn")
        if i == j:
            extra = gen.psym(case["delta"])
            m = m + (extra if m.is_scalar else tuple([extra] * len(m)) if m.is_vector else [[extra] * m.shape[1]] * m.shape[0])
        d[k] = m
    g = PiecewiseFunction(d, geo.TDIM[case["cell"]])
    check((f == g) is False and (f != g) is True and (g == f) is False, f"functions that differ on piece {j} are equal")
    # with a function that is not piecewise
    h = c08.leaf_value(leaf_for(case, 0), "fn")
    want = not models_differ(ms)
    for a, b in ((f, h), (h, f)):
        ctx.count()
        check((a == b) is want and (a != b) is (not want), f"comparison with the function {h} is {not want}")
    # another partition is another piecewise function or the same function: never equal to a different one
    other = PiecewiseFunction({k: v for k, v in list(g.pieces.items())}, geo.TDIM[case["cell"]])
    check((other == f) is False, "comparison with a copy of a different function")
    ctx.count(6)


# ------------------------------------------------------------------ integrals
def measure2(ax):
    return geo.det([[sum((a * b for a, b in zip(u, v)), Fr(0)) for v in ax] for u in ax])


def integral_on(m, vs, cell):
    """(rational factor, Gram determinant) of the integral of model m over the simplex or cell vs."""
    aff = geo.Affine.from_vertices(cell, vs)
    p = {k: c for k, c in m[1].n.items()}
    ax = [tuple(a - b for a, b in zip(vs[i], vs[0])) for i in geo.AXES[cell]]
    if geo.TDIM[cell] == 0:
        return num.peval(p, tuple(vs[0]) + (0,) * (3 - len(vs[0]))), Fr(1)
    return num.pintegral_ref(num.pcompose(p, num.affine_polys(aff)), cell), measure2(ax)


def ent_cell(d, n):
    return "point" if d == 0 else geo.cell_by_nverts(d, n)


def integrals(case, ctx):
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    cell = case["cell"]
    t = geo.TDIM[cell]
    vs = gen.verts_of(case["map"], cell)
    d = case["entity"][0] % (t + 1)
    if case["entity"][1] < 0:  # an entity of a piece (possibly an interface)
        src = shapes[case["piece"] % len(shapes)]
        scell = kind_of(src)
    else:
        src, scell = vs, cell
    ents = geo.entities(scell, d)
    e = ents[abs(case["entity"][1]) % len(ents)]
    dvs = tuple(src[k] for k in e)
    dcell = scell if d == t else ent_cell(d, len(dvs))
    dom = create_reference(dcell, tuple(num.RP(v) for v in dvs))
    ctx.label(f"domain dimension:{t - d} below", "domain of a piece" if case["entity"][1] < 0 else "domain of the cell")
    # distinct d-dimensional parts of the domain, each with the candidate pieces
    parts = {}
    for v, m in zip(shapes, ms):
        pc = kind_of(v)
        for pe in geo.entities(pc, d):
            pv = tuple(v[k] for k in pe)
            if all((pt == dvs[0] if d == 0 else geo.in_cell(dvs, dcell, pt)) for pt in pv):
                kk = pc if d == t else ent_cell(d, len(pv))
                parts.setdefault(frozenset(pv), []).append(integral_on(m, pv, kk))
    got_measure = 0.0
    for c in parts.values():
        got_measure += float(c[0][1]) ** 0.5 * float(geo.VOLUME[dcell if d == t else ent_cell(d, d + 1)] if d else 1)
    s = snap(f)
    try:
        v = f.integral(dom)
    except NotImplementedError:
        ctx.trivial("intersection not supported")
        default = vs == tuple(geo.FV(q) for q in geo.DEFAULT[cell])
        check(d < t or case["entity"][1] < 0 or (cell in ("interval", "quadrilateral") and not default), "the integral over the whole cell is refused")
        return
    if not parts:
        # the domain lies strictly inside pieces' sub-entities (e.g. half of an edge): nothing to compare
        ctx.trivial("no parts")
        return
    options = set()
    for combo in itertools.islice(itertools.product(*[range(len(c)) for c in parts.values()]), 200):
        options.add(round(sum(float(c[k][0]) * float(c[k][1]) ** 0.5 for k, c in zip(combo, parts.values())), 12))
    x = float(v)
    ctx.count()
    check(any(abs(x - o) <= 1e-8 * max(1, abs(o)) for o in options), f"integral over the {dcell} {dvs} is {v} = {x}, not {sorted(options)[:4]}")
    if d == t and case["entity"][1] >= 0:
        exact = sum((c[0][0] * root(c[0][1]) for c in parts.values()), Fr(0))
        check(geo.F(v.as_sympy()) == exact, f"integral over the cell is {v}, not {exact}")
    check(snap(f) == s, "integral modified the function")


def root(q):
    r = sympy.sqrt(num.R(q))
    return geo.F(r)


def mapping(case, ctx):
    """Functions composed with an inverse map, and pieces mapped forward: values are preserved."""
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    cell = case["cell"]
    t = geo.TDIM[cell]
    aff = gen.aff_of(case["map2"])
    inv = aff.inverse()
    fwd = tuple(num.pto_sympy(p) for p in num.affine_polys(aff))
    back = tuple(num.pto_sympy(p) for p in num.affine_polys(inv))
    if not any(b.free_symbols for b in back):
        ctx.trivial("constant map")
        return
    g = f.subs(X[:t], back)
    s = snap(f)
    r = g.map_pieces(fwd)
    check(r is None or isinstance(r, AnyFunction), "map_pieces")
    check(snap(f) == s, "mapping the substituted function modified the original one")
    new = [tuple(aff(v) for v in vs) for vs in shapes]
    lins = {i: RF(p) for i, p in enumerate(num.affine_polys(inv))}
    check_pieces(g, new, [c08.mmap(lambda c: c.compose(lins), m) for m in ms], ctx, "the mapped function")
    for vs, m in zip(shapes, ms):
        w = [geo.F(c) for c in case["w"]][: len(vs)]
        w = [c + Fr(1, 7) for c in w]
        p = tuple(sum((wi * v[c] for wi, v in zip(w, vs)), Fr(0)) / sum(w) for c in range(t))
        if any(any(any(e[t:]) for e, _ in poly) for leaf in case["f"] for poly in flat_polys(leaf)):
            break
        q = num.RP(aff(p))
        fl = num.shape_and_flat(g.subs(X[:t], q))[1]
        ctx.count()
        check([geo.F(e) for e in fl] == [c.at(p + (0,) * (3 - t)) for c in c08.mflat(m)], f"the mapped function at the image of {p} is {fl}")
    # mapping back restores the original
    g2 = g.subs(X[:t], fwd)
    g2.map_pieces(back)
    check(g2 == f, "mapping there and back changes the function")


def construct(case, ctx):
    """Construction from any form of points and functions; mixed types are rejected."""
    f, shapes, ms = build(case)
    note(case, ctx, ms)
    t = geo.TDIM[case["cell"]]
    alt = {}
    for i, vs in enumerate(shapes):
        alt[tuple(tuple(int(c) if c.denominator == 1 else num.R(c) for c in v) for v in vs)] = c08.leaf_value(leaf_for(case, i))
    g = PiecewiseFunction(alt, t)
    check_pieces(g, shapes, ms, ctx, "a piecewise function")
    check(f == g and g == f, "the form of the input matters")
    if len(shapes) > 1:
        keys = list(f.pieces)
        bad = {k: (ScalarFunction(1) if i else VectorFunction((1, 2))) for i, k in enumerate(keys)}
        c08.refuses(lambda: PiecewiseFunction(bad, t), "a piecewise function of a vector and a scalar")
        bad = {k: (VectorFunction((1, 2)) if i else MatrixFunction(((1, 2), (3, 4)))) for i, k in enumerate(keys)}
        c08.refuses(lambda: PiecewiseFunction(bad, t), "a piecewise function of a vector and a matrix")
        # different partitions do not combine
        other = PiecewiseFunction({tuple(tuple(c + 1 for c in v) for v in k): v for k, v in f.pieces.items()}, t)
        c08.refuses(lambda: f + other, "the sum of functions on different partitions")
        check((f == other) is False and (f != other) is True, "functions on different partitions are equal")
    c08.refuses(lambda: PiecewiseFunction({}, t), "a piecewise function without pieces")
    if ms[0][0] != "v":
        c08.refuses(lambda: len(f), "the length of a piecewise function that is not a vector")
    # as_sympy describes the same pieces
    a = f.as_sympy()
    if isinstance(a, dict):
        got = {key_of(k): v for k, v in a.items()}
        check(set(got) == set(shapes), "as_sympy has other pieces")
        for vs, m in zip(shapes, ms):
            c08.same(got[vs], m, ctx, "as_sympy")
    else:
        check(not models_differ(ms), "as_sympy drops pieces")
        c08.same(a, ms[0], ctx, "as_sympy")


# ------------------------------------------------------------------ strategies
HOWS = {"interval": 3, "triangle": 5, "quadrilateral": 5, "tetrahedron": 3}
AB = ["1/2", "1/3", "1/4", "2/3", "3/4", "2/5"]


@st.composite
def functions(draw, kind, nvars, n=None, shape=None, same=None):
    """One leaf per piece (cyclically)."""
    deg = 2

    def pol():
        return draw(gen.polynomial(nvars, deg, 2))

    n = n or draw(st.sampled_from([2, 3]))
    r, c = shape or draw(st.sampled_from([(2, 2), (2, 3)]))
    out = []
    for _ in range(draw(st.sampled_from([3, 4, 6, 2, 6, 3, 4, 1]))):
        if kind == "s":
            out.append({"k": "s", "p": pol(), "form": draw(st.sampled_from(["fn", "sym", "int"]))})
        elif kind == "v":
            out.append({"k": "v", "p": [pol() for _ in range(n)], "form": draw(st.sampled_from(["fn", "list", "tuple"]))})
        else:
            out.append({"k": "m", "p": [[pol() for _ in range(c)] for _ in range(r)], "form": draw(st.sampled_from(["fn", "list", "tuple"]))})
    return out


def ident(t):
    return {"A": [[1 if i == j else 0 for j in range(t)] for i in range(t)], "b": [0] * t}


@st.composite
def base(draw, cell, kind, extra, nvars=None):
    t = geo.TDIM[cell]
    nvars = nvars or draw(st.sampled_from([t, t, 3]))
    return {
        "cell": cell, "how": draw(st.sampled_from(list(range(HOWS[cell] - 1)) * 4 + [HOWS[cell] - 1])), "ab": [draw(st.sampled_from(AB)), draw(st.sampled_from(AB))],
        "map": ident(t) if draw(st.integers(0, 2)) == 0 else draw(gen.affine(t)), "f": draw(functions(kind, nvars)), **{k: draw(v) for k, v in extra.items()},
    }  # fmt: skip


@st.composite
def binaries(draw, cell, op):
    t = geo.TDIM[cell]
    kinds = {"add": ["ss", "vv", "mm"], "sub": ["ss", "vv", "mm"], "mul": ["ss", "vs", "ms"], "truediv": ["ss", "vs", "ms"], "dot": ["ss", "vv", "mm"], "cross": ["vv"], "matmul": ["mm", "mv", "vm"]}
    kf, kg = draw(st.sampled_from(kinds[op]))
    d = draw(st.sampled_from([2, 3]))
    case = draw(base(cell, "s", {}))
    swap = draw(st.booleans()) if op != "truediv" or kf == "s" else False
    if op == "matmul":
        i, j, k = [draw(st.sampled_from([2, 3])) for _ in range(3)]
        case["f"] = draw(functions(kf, t, n=j, shape=(i, j)))
        case["g"] = draw(functions(kg, t, n=j, shape=(j, k)))
    else:
        sh = draw(st.sampled_from([(2, 2), (2, 3), (3, 2)]))
        case["f"] = draw(functions(kf, t, n=d, shape=sh))
        case["g"] = draw(functions(kg, t, n=d, shape=sh))
    other = draw(st.sampled_from(["pw", "fn", "raw"]))
    case.update(op=op, swap=swap, other=other)
    return case


def make_groups(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for c in HOWS:
        t = geo.TDIM[c]
        for op in ("add", "sub", "mul", "truediv", "dot", "cross", "matmul"):
            out.append(Group(f"op/{op}/{c}", binary, binaries(c, op), (24 if op == "matmul" else 12) * k, 3))
        move = st.one_of(st.none(), st.lists(st.sampled_from([0, "1/3", -1, 2, "-1/5"]), min_size=t, max_size=t))
        w = st.lists(st.sampled_from([0, 1, 2, 3]), min_size=4, max_size=4)
        for kind in "svm":
            out.append(Group(f"unary/{c}/{kind}", unary, base(c, kind, {"k": st.sampled_from([2, 1, 3, 0]), "ij": st.lists(st.integers(0, 2), min_size=2, max_size=2), "dir": st.lists(gen.rats(), min_size=3, max_size=3)}), 6 * k, 4))
            out.append(Group(f"lookup/{c}/{kind}", lookup, base(c, kind, {"piece": st.integers(0, 5), "w": w, "move": move, "perm": st.integers(0, 5)}), 30 * k, 3))
            out.append(Group(f"subs/{c}/{kind}", symbolic, base(c, kind, {"with": st.lists(gen.polynomial(3, 1, 2), min_size=3, max_size=3), "i": st.integers(0, 2)}), 8 * k, 3))
            out.append(Group(f"equality/{c}/{kind}", equality, base(c, kind, {"piece": st.integers(0, 5), "delta": gen.polynomial(3, 1, 1)}), 6 * k, 4))
            out.append(Group(f"mapping/{c}/{kind}", mapping, base(c, kind, {"map2": gen.affine(t), "w": w}), 8 * k, 4))
            out.append(Group(f"construct/{c}/{kind}", construct, base(c, kind, {}), 5 * k, 3))
        ent = st.tuples(st.integers(0, t), st.integers(-12, 5)).map(list)
        out.append(Group(f"integral/{c}", integrals, base(c, "s", {"entity": ent, "piece": st.integers(0, 5)}, nvars=t), 50 * k, 6))
        whole = st.just([t, 0])
        out.append(Group(f"integral/{c}/whole", integrals, base(c, "s", {"entity": whole, "piece": st.just(0)}, nvars=t), 20 * k, 6))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C09", make_groups, RULE))

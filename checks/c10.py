"""C10: the pull-back mappings."""

import sys
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, gen, geo, num
from vlib.core import Group, check

import numpy as np
import sympy

import symfem
from symfem import mappings
from symfem.functions import parse_function_input
from symfem.symbols import x

from checks.c08 import rf

RULE = (
    "a case is a mapping, an affine map (any dimension and orientation), field(s) with polynomial "
    "components and query points; non-trivial if the field is not constant or the map is not diagonal; "
    "a violation is a value other than the definition's, a failed inverse, composition or integral identity"
)
KINDS = {
    "identity": "svm", "l2": "svm", "covariant": "v", "contravariant": "v",
    "double_covariant": "m", "double_contravariant": "m",
}  # fmt: skip
SIMPLEX = {1: "interval", 2: "triangle", 3: "tetrahedron"}
BOX = {1: "interval", 2: "quadrilateral", 3: "hexahedron"}


# ------------------------------------------------------------------ model
def T(m):
    return [list(c) for c in zip(*m)]


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), Fr(0)) for j in range(len(b[0]))] for i in range(len(a))]


def scale(a, c):
    return [[c * e for e in r] for r in a]


def transform(name, aff, v, inverse=False, transpose=False):
    """Value at A(p) from the value v (nested list) at p of the mapped field (definition)."""
    A = aff.A
    d = aff.det
    if inverse:
        A, d = geo.inv(A), 1 / d
    iA = geo.inv(A)
    if transpose:  # the inverse transpose of the forward map
        return {
            "identity": lambda: v,
            "l2": lambda: flatmap(v, lambda c: c / abs(d)),
            "covariant": lambda: matvec(T(iA), v),
            "contravariant": lambda: matvec(scale(T(iA), d), v),
        }[name]()
    if name == "identity":
        return v
    if name == "l2":
        return flatmap(v, lambda c: c / abs(d))
    if name == "covariant":
        return matvec(T(iA), v)
    if name == "contravariant":
        return matvec(scale(A, 1 / d), v)
    if name == "double_covariant":
        return mul(mul(T(iA), v), iA)
    return scale(mul(mul(A, v), T(A)), 1 / (d * d))


def flatmap(v, f):
    return [flatmap(i, f) for i in v] if isinstance(v, list) else f(v)


def matvec(m, v):
    return list(geo.matvec(m, v))


def flat(v):
    if isinstance(v, list):
        return [j for i in v for j in flat(i)]
    return [v]


# ------------------------------------------------------------------ building blocks
def field_model(f):
    return flatmap_case(f, rf)


def flatmap_case(f, g):
    if f["k"] == "s":
        return g(f["p"])
    if f["k"] == "v":
        return [g(p) for p in f["p"]]
    return [[g(p) for p in r] for r in f["p"]]


def value_of(f):
    v = flatmap_case(f, gen.psym)
    if f["form"] == "fn":
        return parse_function_input(v)
    if f["form"] == "matrix" and f["k"] == "m":
        return sympy.Matrix(v)
    return totuple(v) if f["form"] == "tuple" else v


def totuple(v):
    return tuple(totuple(i) for i in v) if isinstance(v, list) else v


def expr_map(aff):
    d = len(aff.b)
    return tuple(sum((num.R(a) * x[j] for j, a in enumerate(r)), sympy.Integer(0)) + num.R(aff.b[i]) for i, r in enumerate(aff.A))[:d]


def at(model, p):
    return flatmap(model, lambda c: c.at(p))


def pad(p):
    return tuple(p) + (Fr(0),) * (3 - len(p))


def agrees(got, p, want, ctx, what):
    """got at the point p has the exact values want."""
    vals = num.exact_at(got, p)
    w = flat(want)
    check(len(vals) == len(w), f"{what}: {len(vals)} components, not {len(w)}")
    for a, b in zip(vals, w):
        ctx.count()
        a = sympy.sympify(a)
        check(a.is_Rational and geo.F(a) == b, f"{what}: {a} at {[str(c) for c in p]}, not {b}")


def maps_of(case):
    """(forward, inverse) as expressions, either written down here or asked of a reference cell."""
    d = case["d"]
    aff = gen.aff_of(case["map"])
    cell = (SIMPLEX if case["cell"] == "s" else BOX)[d]
    if case["ask"]:
        ref = symfem.create_reference(cell)
        vs = tuple(num.RP(v) for v in aff.verts(cell))
        return aff, cell, ref.get_map_to(vs), ref.get_inverse_map_to(vs)
    return aff, cell, expr_map(aff), expr_map(aff.inverse())


def shaped(got, f, d):
    g = parse_function_input(got)
    want = {"s": (True, False, False), "v": (False, True, False), "m": (False, False, True)}[f["k"]]
    check((g.is_scalar, g.is_vector, g.is_matrix) == want, f"mapped field has flags {g.is_scalar, g.is_vector, g.is_matrix}")
    if f["k"] != "s":
        check(tuple(g.shape) == ((d,) if f["k"] == "v" else (d, d)), f"mapped field has shape {g.shape}")
    return g


def trivial(case, ctx):
    const = all(not any(e) for p in flat_polys(case["f"]) for e, _ in p)
    A = case["map"]["A"]
    diag = all(i == j or Fr(A[i][j]) == 0 for i in range(len(A)) for j in range(len(A)))
    if const and diag:
        ctx.trivial("constant field, diagonal map")
    ctx.label(f"map:{case['name']}", f"d={case['d']}", "det<0" if gen.aff_of(case["map"]).det < 0 else "det>0", f"field:{case['f']['k']}")


def flat_polys(f):
    return [f["p"]] if f["k"] == "s" else f["p"] if f["k"] == "v" else [p for r in f["p"] for p in r]


# ------------------------------------------------------------------ properties
def prop_value(case, ctx):
    """The mapped field is the definition's, and its inverse undoes it."""
    trivial(case, ctx)
    name, d, f = case["name"], case["d"], case["f"]
    aff, cell, fwd, inv = maps_of(case)
    fm = field_model(f)
    v = value_of(f)
    before = str(v)
    m = getattr(mappings, name) if case["direct"] else mappings.get_mapping(name)
    got = shaped(m(v, fwd, inv), f, d)
    check(str(v) == before, "the field passed in was changed")
    for p in case["points"]:
        p = tuple(geo.F(c) for c in p[:d])
        agrees(got, aff(p), transform(name, aff, at(fm, pad(p))), ctx, f"{name} of the field")
    # without substitution the result is in reference coordinates
    got2 = shaped(m(v, fwd, inv, False), f, d)
    for p in case["points"]:
        p = tuple(geo.F(c) for c in p[:d])
        agrees(got2, p, transform(name, aff, at(fm, pad(p))), ctx, f"{name} of the field without substitution")
    # inverse: of any field on the cell, then forth and back
    mi = getattr(mappings, name + "_inverse") if case["direct"] else mappings.get_mapping(name, inverse=True)
    g = shaped(mi(v, fwd, inv), f, d)
    ai = aff.inverse()
    for p in case["points"]:
        p = tuple(geo.F(c) for c in p[:d])
        agrees(g, ai(p), transform(name, aff, at(fm, pad(p)), inverse=True), ctx, f"{name}_inverse of the field")
    for q, order in ((mi(got, fwd, inv), "inverse after forward"), (m(g, fwd, inv), "forward after inverse")):
        q = shaped(q, f, d)
        for p in case["points"]:
            p = tuple(geo.F(c) for c in p[:d])
            agrees(q, p, at(fm, pad(p)), ctx, f"{name}: {order}")
    g2 = shaped(mi(v, fwd, inv, False), f, d)
    for p in case["points"]:
        p = tuple(geo.F(c) for c in p[:d])
        agrees(g2, p, transform(name, aff, at(fm, pad(p)), inverse=True), ctx, f"{name}_inverse without substitution")


def prop_transpose(case, ctx):
    """A mapped field paired with its inverse-transpose-mapped partner keeps the pointwise product."""
    trivial(case, ctx)
    name, d, f, g = case["name"], case["d"], case["f"], case["g"]
    aff, cell, fwd, inv = maps_of(case)
    m, t = mappings.get_mapping(name), mappings.get_mapping(name, inverse=True, transpose=True)
    a = shaped(m(value_of(f), fwd, inv), f, d)
    b = shaped(t(value_of(g), fwd, inv), g, d)
    b2 = shaped(t(value_of(g), fwd, inv, False), g, d)
    fm, gm = field_model(f), field_model(g)
    for p in case["points"]:
        p = tuple(geo.F(c) for c in p[:d])
        u = [geo.F(c) for c in num.exact_at(a, aff(p))]
        w = [geo.F(c) for c in num.exact_at(b, aff(p))]
        w2 = [geo.F(c) for c in num.exact_at(b2, p)]
        want = sum(c * e for c, e in zip(flat(at(fm, pad(p))), flat(at(gm, pad(p)))))
        ctx.count()
        check(sum(c * e for c, e in zip(u, w)) == want, f"{name}: product with the inverse-transpose-mapped partner is {sum(c * e for c, e in zip(u, w))}, not {want}")
        check(w == w2, f"{name} inverse transpose differs with and without substitution")


def prop_compose(case, ctx):
    """The mapping of a composition is the composition of the mappings; mappings are linear."""
    trivial(case, ctx)
    name, d, f, g = case["name"], case["d"], case["f"], case["g"]
    a1, a2 = gen.aff_of(case["map"]), gen.aff_of(case["map2"])
    a21 = a2.compose(a1)
    inverse = case["inverse"]
    m = mappings.get_mapping(name, inverse=inverse)
    e = lambda a: (expr_map(a), expr_map(a.inverse()))  # noqa: E731
    if inverse:
        two = m(m(value_of(f), *e(a2)), *e(a1))
    else:
        two = m(m(value_of(f), *e(a1)), *e(a2))
    one = m(value_of(f), *e(a21))
    c = geo.F(case["c"])
    fg = parse_function_input(value_of(f)) * num.R(c) + parse_function_input(value_of(g))
    lin = m(fg, *e(a1))
    l1, l2 = m(value_of(f), *e(a1)), m(value_of(g), *e(a1))
    for p in case["points"]:
        p = tuple(geo.F(i) for i in p[:d])
        w = [geo.F(i) for i in num.exact_at(one, p)]
        agrees(two, p, w, ctx, f"{name}: composition")
        u = [geo.F(i) for i in num.exact_at(l1, p)]
        v = [geo.F(i) for i in num.exact_at(l2, p)]
        agrees(lin, p, [c * i + j for i, j in zip(u, v)], ctx, f"{name}: linearity")


def prop_integral(case, ctx):
    """The identities that define the mappings, as integrals over the cell, its facets and edges."""
    trivial(case, ctx)
    name, d, f = case["name"], case["d"], case["f"]
    aff, cell, fwd, inv = maps_of(case)
    got = mappings.get_mapping(name)(value_of(f), fwd, inv)
    before = num.Ev([parse_function_input(value_of(f))])
    after = num.Ev([parse_function_input(got)])
    vs0 = np.array(geo.DEFAULT[cell], dtype=float)
    vs1 = np.array([[float(c) for c in v] for v in aff.verts(cell)])
    deg = 6

    def ent(vs, sub):
        return geo.cell_by_nverts(dim, len(sub)), [vs[i] for i in sub]

    def integral(ev, vs, sub, w):
        c, v = ent(vs, sub)
        pts, ws, _ = geo.quad_on([tuple(q) for q in v], c, deg)
        return np.tensordot(ws, w(ev(pts)[0], v), axes=(0, 0))

    def tangents(v):
        c = geo.cell_by_nverts(dim, len(v))
        return [v[i] - v[0] for i in geo.AXES[c]]

    def normal(v):
        """Normal scaled by the measure of the spanned parallelepiped (cofactor vector)."""
        t = tangents(v)
        if d == 1:
            return np.ones(1)
        if d == 2:
            return np.array([t[0][1], -t[0][0]])
        return np.cross(t[0], t[1])

    def unit_of(v):
        t = np.array(tangents(v))
        return np.sqrt(abs(np.linalg.det(t @ t.T))) if len(t) else 1.0

    k = f["k"]
    if name in ("identity", "l2"):
        dim = d
        sub = tuple(range(len(vs0)))
        a = integral(before, vs0, sub, lambda F, v: F)
        b = integral(after, vs1, sub, lambda F, v: F)
        if name == "identity":
            a = a * abs(float(aff.det))
        ctx.count()
        check(num.allclose(a, b), f"{name}: integral {a} became {b}")
    elif name in ("covariant", "double_covariant"):
        dim = 1
        for sub in geo.entities(cell, 1):
            def w(F, v):
                t = tangents(v)[0] / unit_of(v)
                if k == "v":
                    return F @ t
                # tangential-tangential component against |edge|: t (unnormalised) both sides
                return F.reshape(-1, d, d) @ t @ t * unit_of(v)

            a, b = integral(before, vs0, sub, w), integral(after, vs1, sub, w)
            ctx.count()
            check(num.allclose(a, b), f"{name}: tangential integral along edge {sub} was {a}, became {b}")
    else:
        dim = d - 1
        for sub in geo.entities(cell, d - 1):
            def w(F, v):
                n = normal(v) / unit_of(v)
                if k == "v":
                    return F @ n
                return F.reshape(-1, d, d) @ n @ n * unit_of(v)

            a, b = integral(before, vs0, sub, w), integral(after, vs1, sub, w)
            ctx.count()
            check(num.allclose(a, b), f"{name}: normal flux through {sub} was {a}, became {b}")


VALID = {(n, i, False) for n in KINDS for i in (False, True)} | {
    (n, True, True) for n in ("identity", "l2", "covariant", "contravariant")
}


def prop_lookup(case, ctx):
    n, i, t = case["name"], case["inverse"], case["transpose"]
    if (n, i, t) in VALID:
        ctx.label("valid name")
        g = mappings.get_mapping(n, inverse=i, transpose=t)
        want = getattr(mappings, n + ("_inverse" if i else "") + ("_transpose" if t else ""))
        check(g is want, f"get_mapping{n, i, t} returned {g}")
        return
    full = n + ("_inverse" if i else "") + ("_transpose" if t else "")
    if full in {a + ("_inverse" if b else "") + ("_transpose" if c else "") for a, b, c in VALID}:
        ctx.trivial("a valid function name in full")
        return
    ctx.label("unknown name")
    try:
        g = mappings.get_mapping(n, inverse=i, transpose=t)
    except ValueError:
        return
    raise core.Violation(f"get_mapping{n, i, t} returned {g!r}")


def prop_refuse(case, ctx):
    """Mappings of vectors and matrices refuse other fields."""
    name, d, f = case["name"], case["d"], case["f"]
    aff, cell, fwd, inv = maps_of(case)
    ctx.label(f"{name} of {f['k']}")
    for kw in ({}, {"inverse": True}):
        m = mappings.get_mapping(name, **kw)
        try:
            got = m(value_of(f), fwd, inv)
        except Exception:
            continue
        raise core.Violation(f"{name} accepted a field of kind {f['k']} and returned {got}")


# ------------------------------------------------------------------ strategies
@st.composite
def fields(draw, k, d, deg=2):
    form = draw(st.sampled_from(["fn", "list", "tuple"] + (["matrix"] if k == "m" else [])))
    p = gen.polynomial(d, deg, 3)
    if k == "s":
        return {"k": k, "p": draw(p), "form": form}
    if k == "v":
        return {"k": k, "p": [draw(p) for _ in range(d)], "form": form}
    return {"k": k, "p": [[draw(p) for _ in range(d)] for _ in range(d)], "form": form}


@st.composite
def cases(draw, name, d, what):
    ks = KINDS[name]
    if what == "refuse":
        k = draw(st.sampled_from([i for i in "svm" if i not in ks]))
    else:
        # l2 and identity of vectors and matrices are applied entry by entry
        k = draw(st.sampled_from(ks)) if what not in ("integral",) else draw(st.sampled_from("sv" if len(ks) > 1 else ks))
    if name == "l2" and k == "m":
        k = "s"
    c = {"name": name, "d": d, "map": draw(gen.affine(d)), "f": draw(fields(k, d)), "cell": draw(st.sampled_from("sb")),
         "ask": draw(st.booleans()), "direct": draw(st.booleans()),
         "points": draw(st.lists(st.lists(gen.rats(), min_size=3, max_size=3), min_size=2, max_size=3))}  # fmt: skip
    if what in ("compose", "transpose"):
        c["g"] = draw(fields(k, d))
    if what == "compose":
        c["map2"] = draw(gen.affine(d))
        c["inverse"] = draw(st.booleans())
        c["c"] = draw(gen.rats())
    return c


@st.composite
def names(draw):
    junk = sorted(set(dir(mappings)) | {"", "x", "Identity", "identity ", "piola", "co_variant", "_inverse", "contravariant_", "l2_piola"})
    n = draw(st.one_of(st.sampled_from(sorted(KINDS)), st.sampled_from(junk), st.text("abcdeilnotuv_ 2", max_size=10)))
    return {"name": n, "inverse": draw(st.booleans()), "transpose": draw(st.booleans())}


def make_groups(tier, seed):
    k = 1 if tier == "quick" else 20
    out = []
    for name in KINDS:
        for d in (1, 2, 3):
            big = d == 3 and KINDS[name] == "m"
            w = 4 if big else 2 if d == 3 or KINDS[name] == "m" else 1
            out.append(Group(f"value/{name}/{d}", prop_value, cases(name, d, "value"), (6 if big else 12) * k, w))
            out.append(Group(f"compose/{name}/{d}", prop_compose, cases(name, d, "compose"), (5 if big else 10) * k, w))
            out.append(Group(f"integral/{name}/{d}", prop_integral, cases(name, d, "integral"), 10 * k, w))
            if (name, True, True) in VALID:
                out.append(Group(f"transpose/{name}/{d}", prop_transpose, cases(name, d, "transpose"), 8 * k, w))
            if len(KINDS[name]) == 1 and d > 1:
                out.append(Group(f"refuse/{name}/{d}", prop_refuse, cases(name, d, "refuse"), 4 * k, 0.2))
    out.append(Group("get_mapping", prop_lookup, names(), 300 * k, 0.5))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C10", make_groups, RULE))

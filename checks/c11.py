"""C11: polynomial sets, orthogonal bases, Lobatto bases and L2 duals."""

import itertools
import math
import sys
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, gen, geo, num
from vlib.core import Group, check

import numpy as np
import sympy

from symfem import polynomials as P
from symfem.functions import ScalarFunction, parse_function_input
from symfem.polynomials import polysets
from symfem.symbols import t as tvars
from symfem.symbols import x

RULE = (
    "a case is a generator, cell or dimension, order, variables and random coefficients of members; "
    "non-trivial if the order is at least 1; a violation is a member outside the published space, a "
    "published member outside the span, dependence, lost orthogonality or a wrong derivative"
)
NV = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "prism": 3, "pyramid": 3}
VARS = {"default": None, "x": x, "t": tvars, "yzx": (x[1], x[2], x[0]), "abc": sympy.symbols("a b c")}


# ------------------------------------------------------------------ published spaces
# a scalar space is a list of sympy expressions; a vector space a list of tuples
def mono(v, e):
    return sympy.Mul(*[a**b for a, b in zip(v, e)])


def expos(d, deg, exact=False):
    return [e for e in itertools.product(range(deg + 1), repeat=d) if (sum(e) == deg if exact else sum(e) <= deg)]


def superlinear(e):
    return sum(i for i in e if i != 1)


def full(d, k, v):
    return [mono(v, e) for e in expos(d, k)]


def tensor(d, k, v):
    return [mono(v, e) for e in itertools.product(range(k + 1), repeat=d)]


def vec(space, n):
    return [tuple(p if i == j else sympy.Integer(0) for i in range(n)) for p in space for j in range(n)]


def koszul_div(d, k, v):
    """x p, p homogeneous of degree k-1."""
    return [tuple(a * mono(v, e) for a in v[:d]) for e in expos(d, k - 1, True)] if k else []


def koszul_curl(d, k, v):
    """Homogeneous fields of degree k with x . p = 0, as x times homogeneous fields of degree k - 1."""
    if k == 0:
        return []
    if d == 2:
        return [(v[1] * mono(v, e), -v[0] * mono(v, e)) for e in expos(2, k - 1, True)]
    out = []
    for e in expos(3, k - 1, True):
        p = mono(v, e)
        out += [(sympy.Integer(0), v[2] * p, -v[1] * p), (-v[2] * p, sympy.Integer(0), v[0] * p), (v[1] * p, -v[0] * p, sympy.Integer(0))]
    return out


def q_div(d, k, v):
    """Components of the Raviart-Thomas space on a box: degree k in the own variable, k - 1 in the others."""
    out = []
    for c in range(d):
        for e in itertools.product(*[range(k + 1) if i == c else range(k) for i in range(d)]):
            out.append(tuple(mono(v, e) if i == c else sympy.Integer(0) for i in range(d)))
    return out


def q_curl(d, k, v):
    out = []
    for c in range(d):
        for e in itertools.product(*[range(k) if i == c else range(k + 1) for i in range(d)]):
            out.append(tuple(mono(v, e) if i == c else sympy.Integer(0) for i in range(d)))
    return out


def serendipity(d, k, v):
    return [mono(v, e) for e in itertools.product(range(k + d + 1), repeat=d) if sum(e) > k and superlinear(e) <= k]


def diff(p, a):
    return sympy.diff(p, a)


def s_bubbles(k, v):
    """{yz(w2 - w3), zx(w3 - w1), xy(w1 - w2)} with w1(y,z), w2(x,z), w3(x,y) homogeneous of degree k."""
    a, b, c = v[:3]
    out = []
    for i in range(k + 1):
        for n, w in ((0, b**i * c ** (k - i)), (1, a**i * c ** (k - i)), (2, a**i * b ** (k - i))):
            w3 = [sympy.Integer(0)] * 3
            w3[n] = w
            out.append((b * c * (w3[1] - w3[2]), c * a * (w3[2] - w3[0]), a * b * (w3[0] - w3[1])))
    return out


def curl(f, v):
    return (diff(f[2], v[1]) - diff(f[1], v[2]), diff(f[0], v[2]) - diff(f[2], v[0]), diff(f[1], v[0]) - diff(f[0], v[1]))


def s_div(d, k, v):
    if d == 2:
        return [(diff(p, v[1]), -diff(p, v[0])) for p in (v[0] ** (k + 1) * v[1], v[0] * v[1] ** (k + 1))]
    return [curl(f, v) for f in s_bubbles(k, v)]


def s_curl(d, k, v):
    if d == 2:
        return [(diff(p, v[0]), diff(p, v[1])) for p in (v[0] ** (k + 1) * v[1], v[0] * v[1] ** (k + 1))]
    grads = [tuple(diff(p, a) for a in v[:3]) for p in serendipity(3, k + 1, v)]
    return s_bubbles(k - 1, v) + grads


def prism(d, k, v):
    return [mono(v, e + (c,)) for e in expos(2, k) for c in range(k + 1)]


def pyramid(d, k, v):
    """Collapsed coordinates: xi^i eta^j (1-z)^m, max(i, j) <= m <= k."""
    w = 1 - v[2]
    return [(v[0] / w) ** i * (v[1] / w) ** j * w**m for i in range(k + 1) for j in range(k + 1) for m in range(max(i, j), k + 1)]


# name -> (callable(d, k, variables kw), published(d, k, v), dims, lowest order, dimension, modulo)
def _pub(f, vector=False):
    return (lambda d, k, v: vec(f(d, k, v), d)) if vector else f


C = math.comb
SETS = {
    "polynomial_set_1d": (lambda d, k, kw: polysets.polynomial_set_1d(d, k, **kw), full, (1, 2, 3), 0, lambda d, k: C(k + d, d)),
    "polynomial_set_vector": (lambda d, k, kw: polysets.polynomial_set_vector(d, d, k, **kw), _pub(full, 1), (1, 2, 3), 0, lambda d, k: d * C(k + d, d)),
    "quolynomial_set_1d": (lambda d, k, kw: polysets.quolynomial_set_1d(d, k, **kw), tensor, (1, 2, 3), 0, lambda d, k: (k + 1) ** d),
    "quolynomial_set_vector": (lambda d, k, kw: polysets.quolynomial_set_vector(d, d, k, **kw), _pub(tensor, 1), (1, 2, 3), 0, lambda d, k: d * (k + 1) ** d),
    "Hdiv_polynomials": (lambda d, k, kw: polysets.Hdiv_polynomials(d, d, k, **kw), koszul_div, (2, 3), 1, lambda d, k: C(k + d - 2, d - 1)),
    "Hcurl_polynomials": (lambda d, k, kw: polysets.Hcurl_polynomials(d, d, k, **kw), koszul_curl, (2, 3), 1, lambda d, k: k if d == 2 else k * (k + 2)),
    "serendipity_set_1d": (lambda d, k, kw: polysets.serendipity_set_1d(d, k, **kw), serendipity, (2, 3), 1, None),
    "serendipity_set_vector": (lambda d, k, kw: polysets.serendipity_set_vector(d, d, k, **kw), _pub(serendipity, 1), (2, 3), 1, None),
    "Hdiv_serendipity": (lambda d, k, kw: polysets.Hdiv_serendipity(d, d, k, **kw), s_div, (2, 3), 1, lambda d, k: 2 if d == 2 or k == 0 else 3 * (k + 1)),
    "Hcurl_serendipity": (lambda d, k, kw: polysets.Hcurl_serendipity(d, d, k, **kw), s_curl, (2, 3), 1, None),
    "prism_polynomial_set_1d": (lambda d, k, kw: polysets.prism_polynomial_set_1d(d, k, **kw), prism, (3,), 0, lambda d, k: (k + 1) ** 2 * (k + 2) // 2),
    "prism_polynomial_set_vector": (lambda d, k, kw: polysets.prism_polynomial_set_vector(d, d, k, **kw), _pub(prism, 1), (3,), 0, lambda d, k: 3 * (k + 1) ** 2 * (k + 2) // 2),
    "pyramid_polynomial_set_1d": (lambda d, k, kw: polysets.pyramid_polynomial_set_1d(d, k, **kw), pyramid, (3,), 0, lambda d, k: (k + 1) * (k + 2) * (2 * k + 3) // 6),
    "pyramid_polynomial_set_vector": (lambda d, k, kw: polysets.pyramid_polynomial_set_vector(d, d, k, **kw), _pub(pyramid, 1), (3,), 0, lambda d, k: (k + 1) * (k + 2) * (2 * k + 3) // 2),
    # these are the parts that are added to a smaller full space, and are published as the sum
    "Hdiv_quolynomials": (lambda d, k, kw: polysets.quolynomial_set_vector(d, d, k - 1, **kw) + polysets.Hdiv_quolynomials(d, d, k, **kw), q_div, (2, 3), 1, lambda d, k: d * (k + 1) * k ** (d - 1)),
    "Hcurl_quolynomials": (lambda d, k, kw: polysets.quolynomial_set_vector(d, d, k - 1, **kw) + polysets.Hcurl_quolynomials(d, d, k, **kw), q_curl, (2, 3), 1, lambda d, k: d * k * (k + 1) ** (d - 1)),
}  # fmt: skip
CELLSET = {"interval": (full, 1), "triangle": (full, 2), "tetrahedron": (full, 3), "quadrilateral": (tensor, 2), "hexahedron": (tensor, 3), "prism": (prism, 3), "pyramid": (pyramid, 3)}  # fmt: skip


# ------------------------------------------------------------------ helpers
def kwargs_of(case, n=None):
    v = VARS[case["vars"]]
    if v is None:
        return {}, x
    if n is not None:
        return {"variables": list(v[:n])}, v
    return {"variables": v}, v


def table(funcs, v, n):
    """Values [function][point*component] at points chosen to determine members of the space."""
    rng = np.random.RandomState(99)
    pts = np.cos(np.pi * rng.rand(n, 3)) * np.array([1, 1, 0.7])
    fl, width = [], None
    for f in funcs:
        sh, c = num.shape_and_flat(parse_function_input(f))
        width = width or len(c)
        check(len(c) == width, f"members with {width} and {len(c)} components")
        fl += c
    vals = num.lam(fl, v)(pts)
    return vals.reshape(len(funcs), width * n) if funcs else np.zeros((0, n))


def same_span(got, want, v, what, dim=None, basis=True):
    n = max(len(got), len(want)) + 12
    A, B = table(got, v, n), table(want, v, n)
    if not len(want):
        check(not len(got), f"{what}: {len(got)} functions in an empty space")
        return
    check(len(got) > 0, f"{what}: empty")
    check(A.shape[1] == B.shape[1], f"{what}: wrong number of components")
    r = exact_rank(B)
    if dim is not None:
        if r != dim:
            raise core.HarnessError(f"published space of {what} has rank {r}, not {dim}")
    ra = exact_rank(A)
    check(ra == r, f"{what}: span has dimension {ra}, published dimension is {r}")
    if basis:
        check(len(got) == r, f"{what}: {len(got)} functions for a space of dimension {r}")
    bad = [i for i, ok in enumerate(num.in_span(B, A, 1e-6)) if not ok]
    check(not bad, f"{what}: member {bad[:1] and got[bad[0]]} is not in the published space")


def exact_rank(A):
    return num.rank(A, 1e-13)


# ------------------------------------------------------------------ properties
def prop_set(case, ctx):
    call, pub, dims, lo, dim = SETS[case["set"]]
    d, k = case["d"], case["order"]
    kw, v = kwargs_of(case)
    got = call(d, k, kw)
    if k < 1:
        ctx.trivial("constants")
    ctx.label(case["set"], f"vars:{case['vars']}")
    allowed = set(v[:d])
    for f in got:
        free = set().union(*[e.free_symbols for e in num.shape_and_flat(f)[1]])
        check(free <= allowed, f"{case['set']}({d}, {k}) has a member in the variables {free}")
    same_span(got, pub(d, k, v), v, f"{case['set']}({d}, order {k})", dim and dim(d, k))
    ctx.count(len(got))


def prop_rect(case, ctx):
    """Vector sets with any number of components."""
    d, n, k = case["d"], case["n"], case["order"]
    kw, v = kwargs_of(case)
    f, g = {"P": (polysets.polynomial_set_vector, full), "Q": (polysets.quolynomial_set_vector, tensor), "S": (polysets.serendipity_set_vector, serendipity),
            "prism": (polysets.prism_polynomial_set_vector, prism), "pyramid": (polysets.pyramid_polynomial_set_vector, pyramid)}[case["set"]]  # fmt: skip
    got = f(d, n, k, **kw)
    same_span(got, vec(g(d, k, v), n), v, f"{case['set']} with {n} components")
    check(all(len(num.raw(p)) == n for p in got), "wrong number of components")


def prop_cellset(case, ctx):
    cell, k = case["cell"], case["order"]
    if cell not in CELLSET:
        ctx.label("unknown cell")
        for f in (lambda: P.polynomial_set(cell, k), lambda: P.orthogonal_basis(cell, k, 0)):
            try:
                f()
            except ValueError:
                continue
            raise core.Violation(f"no error for the cell {cell}")
        return
    kw, v = kwargs_of(case)
    pub, d = CELLSET[cell]
    ctx.label(f"polynomial_set {cell}")
    same_span(P.polynomial_set(cell, k, **kw), pub(d, k, v), v, f"polynomial_set({cell}, {k})")


def deriv_index(a):
    """Position of a multi-index in the graded order used by the derivative tables."""
    if len(a) == 1:
        return a[0]
    if len(a) == 2:
        p, q = a
        return (p + q + 1) * (p + q) // 2 + q
    p, q, r = a
    return (p + q + r) * (p + q + r + 1) * (p + q + r + 2) // 6 + (q + r) * (q + r + 1) // 2 + r


def prop_ortho(case, ctx):
    cell, k, nd, normal = case["cell"], case["order"], case["derivs"], case["normal"]
    d = NV[cell]
    kw, v = kwargs_of(case, d)
    v = tuple(v)
    what = f"{'orthonormal' if normal else 'orthogonal'}_basis({cell}, {k}, {nd})"
    ctx.label(f"{cell} {'orthonormal' if normal else 'orthogonal'}", f"vars:{case['vars']}")
    if k < 1:
        ctx.trivial("constants")
    B = (P.orthonormal_basis if normal else P.orthogonal_basis)(cell, k, nd, **kw)
    check(len(B) == math.comb(nd + d, d), f"{what}: {len(B)} tables of derivatives")
    pub, dd = CELLSET[cell]
    n = len(pub(d, k, x))
    check(all(len(b) == n for b in B), f"{what}: {[len(b) for b in B]} functions, not {n}")
    pts, ws = geo.quad(cell, 2 * k + 2)
    exprs = [sympy.sympify(num.raw(f)) for f in B[0]]
    vals = num.lam(exprs, v[:d])(pts)
    G = (vals * ws) @ vals.T
    D = np.sqrt(np.diag(G))
    check((D > 1e-9).all(), f"{what}: a function is zero")
    off = np.abs(G / np.outer(D, D) - np.eye(n)).max()
    ctx.count(n * n)
    check(off < 1e-9, f"{what}: not orthogonal, cosine {off}")
    if normal:
        check(np.abs(D - 1).max() < 1e-9, f"{what}: norm {D[np.abs(D - 1).argmax()]}")
    same_span(B[0], pub(d, k, v), v + tuple(x[len(v):]), what)
    # derivative tables
    for a in itertools.product(range(nd + 1), repeat=d):
        if sum(a) > nd:
            continue
        t = B[deriv_index(a)]
        for f, e in zip(t, exprs):
            want = e
            for vi, m in zip(v, a):
                if m:
                    want = sympy.diff(want, vi, m)
            ctx.count()
            df = num.lam([sympy.sympify(num.raw(f)), want], v[:d])(np.array(case["points"], dtype=float)[:, :d] / 17)
            check(num.allclose(df[0], df[1]), f"{what}: derivative {a} of {e} is given as {num.raw(f)}")


def prop_lobatto(case, ctx):
    cell, k, ends = case["cell"], case["order"], case["ends"]
    d = NV[cell]
    B = P.lobatto_basis(cell, k, ends)
    D = P.lobatto_dual_basis(cell, k, ends)
    ctx.label(f"lobatto {cell}", f"ends:{ends}")
    n = (k + 1 if ends else k - 1) ** d
    if not n:
        ctx.trivial("empty")
    check(len(B) == n and len(D) == n, f"{len(B)} Lobatto and {len(D)} dual functions, not {n}")
    if not n:
        return
    if ends:
        same_span(B, tensor(d, k, x), x, f"lobatto_basis({cell}, {k})")
    else:
        pub = [sympy.Mul(*[x[i] * (1 - x[i]) * x[i] ** e[i] for i in range(d)]) for e in itertools.product(range(k - 1), repeat=d)]
        same_span(B, pub, x, f"lobatto_basis({cell}, {k}, False)")
        # on the boundary
        pts = np.array(case["points"], dtype=float)[:, :d] / 17
        for i in range(d):
            for end in (0.0, 1.0):
                q = pts.copy()
                q[:, i] = end
                val = num.Ev(B)(q)
                ctx.count(len(B))
                check(np.abs(val).max() < 1e-9, f"lobatto_basis({cell}, {k}, False) does not vanish on the boundary")
    pts, ws = geo.quad(cell, 2 * k + 2)
    b, q = num.Ev(B)(pts)[:, :, 0], num.Ev(D)(pts)[:, :, 0]
    G = (q * ws) @ b.T
    ctx.count(n * n)
    check(np.abs(G - np.eye(n)).max() < 1e-7, f"lobatto_dual_basis({cell}, {k}, {ends}) is not dual to the basis")
    if d == 1 and ends:
        dv = num.Ev([f.diff(x[0]) for f in B])(pts)[:, :, 0]
        G = (dv * ws) @ dv.T
        E = np.eye(n)
        E[0, 0] = 0
        check(np.abs(G - E).max() < 1e-8, "Lobatto functions are not integrals of orthonormal Legendre polynomials")
        check(np.abs(num.Ev(B[1:])(np.zeros((1, 1)))).max() < 1e-9, "Lobatto functions do not start at zero")
        check(num.allclose(num.Ev(B)(np.array([[0.3]]))[:2, 0, 0], [1.0, 0.3]), "first Lobatto functions are not 1 and x")


def prop_dual(case, ctx):
    """l2_dual of a random independent set of polynomials."""
    cell = case["cell"]
    d = NV[cell]
    mons = [e + (0,) * (3 - d) for e in expos(d, case["deg"])]
    n = min(case["n"], len(mons))
    mons = sorted(mons, key=lambda e: (sum(e), e))[:n] if not case["high"] else sorted(mons, key=lambda e: (sum(e), e))[-n:]
    M = [[Fr(case["c"][(i * n + j) % len(case["c"])]) if j < i else Fr(int(i == j)) for j in range(n)] for i in range(n)]
    polys = [{e: c for e, c in zip(mons, row) if c} for row in M]
    fs = [ScalarFunction(num.pto_sympy(p)) for p in polys]
    before = [str(f) for f in fs]
    dual = P.l2_dual(cell, fs)
    check([str(f) for f in fs] == before, "l2_dual changed its argument")
    check(len(dual) == n, f"l2_dual returned {len(dual)} functions for {n}")
    if n < 2:
        ctx.trivial("one function")
    for i, f in enumerate(dual):
        p = num.poly(num.raw(f))
        for j, q in enumerate(polys):
            v = num.pintegral_ref(num.pmul(p, q), cell)
            ctx.count()
            check(v == int(i == j), f"<dual {i}, function {j}> = {v} on the {cell}")
    A = table(fs, x, n + 6)
    check(all(num.in_span(A, table(dual, x, n + 6))), "l2_dual left the span of the set")


# ------------------------------------------------------------------ strategies
@st.composite
def set_cases(draw, name, d, hi):
    lo = SETS[name][3]
    if name == "Hdiv_serendipity" and d == 3:
        lo = 0
    return {"set": name, "d": d, "order": draw(st.integers(lo, hi)), "vars": draw(st.sampled_from(sorted(VARS)))}


@st.composite
def rect_cases(draw, hi):
    s = draw(st.sampled_from(["P", "Q", "S", "prism", "pyramid"]))
    d = 3 if s in ("prism", "pyramid") else draw(st.integers(2 if s == "S" else 1, 3))
    return {"set": s, "d": d, "n": draw(st.integers(1, 4)), "order": draw(st.integers(1 if s == "S" else 0, hi)), "vars": draw(st.sampled_from(sorted(VARS)))}


@st.composite
def cell_cases(draw, hi):
    return {"cell": draw(st.sampled_from(sorted(CELLSET) + sorted(CELLSET) + ["point", "square", "dual polygon(4)", ""])), "order": draw(st.integers(0, hi)), "vars": draw(st.sampled_from(sorted(VARS)))}


def pts():
    return st.lists(st.lists(st.integers(1, 7), min_size=3, max_size=3), min_size=2, max_size=3)


@st.composite
def ortho_cases(draw, cell, hi, normal, nd):
    names = ["default", "t", "abc"] if normal else sorted(VARS)
    return {"cell": cell, "order": draw(st.integers(0, hi)), "derivs": draw(st.integers(0, nd)), "normal": normal,
            "vars": draw(st.sampled_from(names)), "points": draw(pts())}  # fmt: skip


@st.composite
def lob_cases(draw, cell, hi):
    return {"cell": cell, "order": draw(st.integers(1, hi)), "ends": draw(st.booleans()), "points": draw(pts())}


@st.composite
def dual_cases(draw, cell):
    return {"cell": cell, "deg": draw(st.integers(1, 3)), "n": draw(st.integers(1, 5)), "high": draw(st.booleans()) and cell != "pyramid",
            "c": draw(st.lists(gen.rats(), min_size=3, max_size=9))}  # fmt: skip


def make_groups(tier, seed):
    T = tier == "thorough"
    k = 8 if T else 1
    out = []
    for name, (_, _, dims, lo, _) in SETS.items():
        for d in dims:
            hi = {1: 7, 2: 6, 3: 4}[d] + (3 if T else 0)
            if "pyramid" in name or "vector" in name and d == 3:
                hi = 3 + (2 if T else 0)
            out.append(Group(f"set/{name}/{d}", prop_set, set_cases(name, d, hi), 2 * (hi + 1) * k, d))
    out.append(Group("set/components", prop_rect, rect_cases(3 if T else 2), 30 * k, 2))
    out.append(Group("set/cell", prop_cellset, cell_cases(5 if T else 4), 30 * k, 2))
    hi_o = {"interval": 8, "triangle": 5, "quadrilateral": 4, "tetrahedron": 3, "hexahedron": 2, "prism": 2, "pyramid": 3}
    hi_n = {"interval": 4, "triangle": 2, "quadrilateral": 2, "tetrahedron": 2, "hexahedron": 1, "prism": 1, "pyramid": 1}
    for c in NV:
        out.append(Group(f"orthogonal/{c}", prop_ortho, ortho_cases(c, hi_o[c] + 2 * T, False, 3 if NV[c] < 3 else 2), (10 if NV[c] < 3 else 6) * k, 5 * NV[c]))
        out.append(Group(f"orthonormal/{c}", prop_ortho, ortho_cases(c, hi_n[c] + 2 * T, True, 2), (6 if NV[c] < 3 else 3) * k, 8, 1200 if T else 240))
    for c, hi in (("interval", 4), ("quadrilateral", 3), ("hexahedron", 2)):
        out.append(Group(f"lobatto/{c}", prop_lobatto, lob_cases(c, hi + 2 * T), 8 * k, 6))
    for c in NV:
        out.append(Group(f"dual/{c}", prop_dual, dual_cases(c), 5 * k, 8))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C11", make_groups, RULE))

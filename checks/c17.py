"""C17: the space of every family against an independent description."""

import itertools
import sys
from fractions import Fraction as Fr
from math import comb, factorial

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, geo, modlin, num
from vlib.core import Group, check

import numpy as np
import sympy

from symfem.finite_element import CiarletElement
from symfem.functionals import PointEvaluation

RULE = (
    "a case is (family, cell, order, variant) with a random member of the published space; non-trivial if the space "
    "has more than one function; a violation is a published function outside the element's space, an element's "
    "function outside the published one, a wrong dimension, or a member that the DOFs and the basis do not reproduce"
)


# ------------------------------------------------------------------ polynomials {exponents: coefficient}
def mono(*e):
    return {tuple(e) + (0,) * (3 - len(e)): Fr(1)}


ONE = mono(0, 0, 0)
V = [mono(1, 0, 0), mono(0, 1, 0), mono(0, 0, 1)]


def lin(c, *a):
    out = {(0, 0, 0): Fr(c)} if c else {}
    for v, k in zip(V, a):
        if k:
            out = num.padd(out, v, k)
    return out


def mul(*ps):
    out = ONE
    for p in ps:
        out = num.pmul(out, p)
    return out


def exps(d, k, test=lambda e: True):
    return [e + (0,) * (3 - d) for e in itertools.product(range(k + 1), repeat=d) if test(e)]


def P(d, k):
    return [{e: Fr(1)} for e in exps(d, k, lambda e: sum(e) <= k)] if k >= 0 else []


def H(d, k):
    return [{e: Fr(1)} for e in exps(d, k, lambda e: sum(e) == k)] if k >= 0 else []


def Q(*ks):
    return [{e + (0,) * (3 - len(ks)): Fr(1)} for e in itertools.product(*(range(k + 1) for k in ks))]


def comp(i, n, ps):
    """The polynomials in component i of n."""
    return [[p if j == i else {} for j in range(n)] for p in ps]


def vec(n, ps):
    return [f for i in range(n) for f in comp(i, n, ps)]


def scal(ps):
    return [[p] for p in ps]


def sym(d, ps):
    out = []
    for i in range(d):
        for j in range(i, d):
            for p in ps if not callable(ps) else ps(i, j):
                m = [{} for _ in range(d * d)]
                m[i * d + j] = m[j * d + i] = p
                out.append(m)
    return out


BARY = {
    "interval": [lin(1, -1), lin(0, 1)],
    "triangle": [lin(1, -1, -1), lin(0, 1), lin(0, 0, 1)],
    "tetrahedron": [lin(1, -1, -1, -1), lin(0, 1), lin(0, 0, 1), lin(0, 0, 0, 1)],
}


def bubble(cell):
    if cell in BARY:
        return mul(*BARY[cell])
    return mul(*[num.padd(num.pmul(V[i], V[i]), V[i], -1) for i in range(geo.TDIM[cell])])


# ------------------------------------------------------------------ differential forms in three variables
# k-forms are {sorted tuple of directions: polynomial}
def koszul(w, d):
    out = {}
    for s, p in w.items():
        for n, i in enumerate(s):
            r = s[:n] + s[n + 1 :]
            out[r] = num.padd(out.get(r, {}), num.pmul(p, V[i]), (-1) ** n)
    return out


def ext(w, d):
    out = {}
    for s, p in w.items():
        for i in range(d):
            if i not in s:
                r = tuple(sorted(s + (i,)))
                out[r] = num.padd(out.get(r, {}), num.pdiff(p, i), (-1) ** r.index(i))
    return out


def forms(d, k, ps, lindeg=0):
    """Forms with one monomial and one direction, of at least the given linear degree."""
    out = []
    for s in itertools.combinations(range(d), k):
        for p in ps:
            (e,) = p
            if sum(1 for i in range(d) if i not in s and e[i] == 1) >= lindeg:
                out.append({s: p})
    return out


def proxy(w, d, k, div=False):
    """Form -> components of the vector (or scalar)."""
    if k in (0, d):
        return [w.get(tuple(range(k)), {})]
    if k == 1:
        one = [w.get((i,), {}) for i in range(d)]
        if div:  # turned by a right angle
            return [one[1], num.padd({}, one[0], -1)]
        return one
    return [w.get((1, 2), {}), num.padd({}, w.get((0, 2), {}), -1), w.get((0, 1), {})]


def serendipity_forms(d, r, k):
    """S_r Lambda^k of Arnold and Awanou: P_r, J_r and dJ_{r+1}."""

    def J(r, k):
        out = []
        for ell in range(1, d + 1):
            for w in forms(d, k + 1, H(d, r + ell - 1), ell) if k < d else []:
                out.append(koszul(w, d))
        return out

    out = forms(d, k, P(d, r)) + J(r, k)
    if k:
        out += [ext(w, d) for w in J(r + 1, k - 1)]
    return [w for w in out if any(w.values())]


def trimmed_forms(d, r, k):
    """S-_r Lambda^k of Gillette and Kloefkorn: S_{r-1} Lambda^k and the Koszul image of S_{r-1} Lambda^{k+1}."""
    out = serendipity_forms(d, r - 1, k) if r > 1 else forms(d, k, P(d, 0))
    if r == 1:
        # d of the bilinear corrections vanish in the trimmed space of the lowest order
        out = out + [w for w in serendipity_forms(d, 0, k)]
    up = serendipity_forms(d, r - 1, k + 1) if k < d else []
    return out + [koszul(w, d) for w in up]


def superlinear(d, r):
    """Degree without the variables that enter linearly is at most r."""
    return [{e: Fr(1)} for e in exps(d, max(r, 1), lambda e: sum(i for i in e if i > 1) <= r)]


def legendre01(k):
    return [Fr((-1) ** (k + i) * comb(k, i) * comb(k + i, i)) for i in range(k + 1)]


def pleg(k, i):
    return {tuple(n if j == i else 0 for j in range(3)): c for n, c in enumerate(legendre01(k)) if c}


def ptntb(k, i):
    """Primitive of the Legendre polynomial that vanishes at both ends, times a constant."""
    return num.padd(pleg(k, i), pleg(k - 2, i), -1) if k > 1 else {}


def at0(p):
    return {(0, 0, 0): p[(0, 0, 0)]} if p.get((0, 0, 0)) else {}


# ------------------------------------------------------------------ the published spaces
SER, SC, SD = "serendipity", "serendipity Hcurl", "serendipity Hdiv"
SPACES = {}


def space(*names):
    def wrap(f):
        for n in names:
            SPACES[n] = f
        return f

    return wrap


def lagrange(cell, k):
    d = geo.TDIM[cell]
    if cell in BARY:
        return P(d, k)
    if cell in ("quadrilateral", "hexahedron"):
        return Q(*[k] * d)
    if cell == "prism":
        return [num.pmul(p, q) for p in P(2, k) for q in [mono(0, 0, i) for i in range(k + 1)]]
    return None


@space("Lagrange", "Bernstein", "Q", "Taylor", "Crouzeix-Raviart", "Morley", "Fortin-Soulie", "Hermite", "Argyris", "Morley-Wang-Xu", "Bogner-Fox-Schmit")
def _(cell, k, kw):
    return None if lagrange(cell, k) is None else scal(lagrange(cell, k))


@space("vector Lagrange", "vector Q", "Nedelec2", "Brezzi-Douglas-Marini")
def _(cell, k, kw):
    return vec(geo.TDIM[cell], lagrange(cell, k))


@space("matrix Lagrange")
def _(cell, k, kw):
    return vec(geo.TDIM[cell] ** 2, lagrange(cell, k))


@space("symmetric matrix Lagrange")
def _(cell, k, kw):
    return sym(geo.TDIM[cell], lagrange(cell, k))


@space("Hellan-Herrmann-Johnson")
def _(cell, k, kw):
    return sym(geo.TDIM[cell], P(geo.TDIM[cell], k))


@space("Regge")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    if cell in BARY:
        return sym(d, P(d, k))
    return sym(d, lambda i, j: Q(*[k if m in (i, j) else k + 1 for m in range(d)]))


@space("dPc")
def _(cell, k, kw):
    return scal(P(geo.TDIM[cell], k))


@space("vector dPc")
def _(cell, k, kw):
    return vec(geo.TDIM[cell], P(geo.TDIM[cell], k))


@space("bubble")
def _(cell, k, kw):
    low = k - {"triangle": 3, "tetrahedron": 4}.get(cell, 2)
    return scal([num.pmul(bubble(cell), p) for p in lagrange(cell, low)])


@space("bubble enriched Lagrange")
def _(cell, k, kw):
    return scal(P(2, k) + [num.pmul(bubble(cell), p) for p in P(2, k - 1)])


@space("bubble enriched vector Lagrange")
def _(cell, k, kw):
    return vec(2, P(2, k) + [num.pmul(bubble(cell), p) for p in P(2, k - 1)])


@space("conforming Crouzeix-Raviart")
def _(cell, k, kw):
    return scal(P(2, k) + ([num.pmul(bubble(cell), p) for p in H(2, k - 2)] if k > 1 else []))


@space("Kong-Mulder-Veldhuizen")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    if d == 2:
        return scal(P(2, k) + ([num.pmul(bubble(cell), p) for p in P(2, k - 2)] if k > 1 else []))
    out = P(3, k)
    if k == 2:
        for f in itertools.combinations(BARY[cell], 3):
            out = out + [mul(*f, q) for q in f]
        out.append(bubble(cell))
    return scal(out)


@space("Wu-Xu")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return scal(P(d, k) + [num.pmul(bubble(cell), p) for p in P(d, 1)])


@space("Rannacher-Turek")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    sq = [num.pmul(v, v) for v in V[:d]]
    return scal([ONE] + V[:d] + [num.padd(sq[0], s, -1) for s in sq[1:]])


@space("Nedelec")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    if cell == "prism":
        flat = SPACES["Nedelec"]("triangle", k, kw)
        up = [mono(0, 0, i) for i in range(k + 1)]
        return [[num.pmul(p, z) for p in f] + [{}] for f in flat for z in up] + comp(2, 3, [num.pmul(p, z) for p in P(2, k) for z in up[:k]])
    # p + q with p of degree k - 1 and q homogeneous of degree k and orthogonal to the position
    return [proxy(w, d, 1) for w in forms(d, 1, P(d, k - 1)) + [koszul(w, d) for w in forms(d, 2, H(d, k - 1))]]


@space("Raviart-Thomas")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return vec(d, P(d, k - 1)) + [[num.pmul(v, p) for v in V[:d]] for p in H(d, k - 1)]


@space("Brezzi-Douglas-Fortin-Marini")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    if cell in BARY:
        return None
    out = []
    for i in range(d):
        out += comp(i, d, [{e: Fr(1)} for e in exps(d, k, lambda e: sum(e) < k or (sum(e) == k and e[i] > 0))])
    return out


@space("NCE")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return [f for i in range(d) for f in comp(i, d, Q(*[k - 1 if j == i else k for j in range(d)]))]


@space("NCF", "Huang-Zhang")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return [f for i in range(d) for f in comp(i, d, Q(*[k if j == i else k - 1 for j in range(d)]))]


@space("Arnold-Boffi-Falk")
def _(cell, k, kw):
    return comp(0, 2, Q(k + 2, k)) + comp(1, 2, Q(k, k + 2))


def curls(*ps):
    return [[num.pdiff(p, 1), num.padd({}, num.pdiff(p, 0), -1)] for p in ps]


@space("Arbogast-Correa")
def _(cell, k, kw):
    return vec(2, P(2, k)) + [[num.pmul(V[0], p), num.pmul(V[1], p)] for p in H(2, k)] + curls(mono(k + 1, 1), mono(1, k + 1))


@space("Brezzi-Douglas-Duran-Fortin")
def _(cell, k, kw):
    out = vec(3, P(3, k))
    for i in range(k + 1):
        # the curls of (0, 0, x y^(i+1) z^(k-i)) and its cyclic permutations
        e = (1, i + 1, k - i)
        for s in range(3):
            f = [{}, {}, {}]
            f[(2 + s) % 3] = mono(*[e[(j - s) % 3] for j in range(3)])
            out.append(modlin.curl3(f))
    return out


@space("Bernardi-Raugel")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    out = vec(d, P(d, k))
    for i, b in enumerate(BARY[cell]):
        n = [b.get(tuple(int(m == j) for m in range(3)), Fr(0)) for j in range(d)]
        face = mul(*[c for j, c in enumerate(BARY[cell]) if j != i])
        out.append([num.padd({}, face, c) if c else {} for c in n])
    if k == 2:
        out += vec(d, [bubble(cell)])
    return out


@space(SER)
def _(cell, k, kw):
    return scal(superlinear(geo.TDIM[cell], k))


@space(SC)
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return [proxy(w, d, 1) for w in serendipity_forms(d, k, 1)]


@space(SD)
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return [proxy(w, d, d - 1, d == 2) for w in serendipity_forms(d, k, d - 1)]


@space("trimmed serendipity Hcurl")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return [proxy(w, d, 1) for w in trimmed_forms(d, k, 1)]


@space("trimmed serendipity Hdiv")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    return [proxy(w, d, d - 1, d == 2) for w in trimmed_forms(d, k, d - 1)]


@space("tiniest tensor")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    out = Q(*[k] * d)
    for i in range(d):
        out += [{tuple(k + 1 if j == i else (e[j] if j < d else 0) for j in range(3)): Fr(1)} for e in itertools.product((0, 1), repeat=d) if e[i] == 0]
    return scal(out)


@space("tiniest tensor Hdiv")
def _(cell, k, kw):
    d = geo.TDIM[cell]
    out = vec(d, Q(*[k] * d))
    for on in itertools.product((0, 1), repeat=d):
        if any(on):
            f = []
            for i in range(d):
                f.append(mul(*[(ptntb(k + 1, j) if on[j] else {}) if j == i else (pleg(k, j) if on[j] else at0(pleg(k, j))) for j in range(d)]))
            out.append(f)
    return out


@space("tiniest tensor Hcurl")
def _(cell, k, kw):
    d = geo.TDIM[cell]

    def flat(a, b):
        """The fields of the two-dimensional space in variables a, b, turned by a right angle."""
        pa, pb, ba, bb = pleg(k, a), pleg(k, b), ptntb(k + 1, a), ptntb(k + 1, b)
        return [({}, num.pmul(at0(pa), bb)), (num.pmul(ba, at0(pb)), {}), (num.pmul(ba, pb), num.pmul(pa, bb))]

    out = vec(d, Q(*[k] * d))
    if d == 2:
        return out + [[g, num.padd({}, f, -1)] for f, g in flat(0, 1)]
    for i in range(3):
        a, b = [j for j in range(3) if j != i]
        for lam in (V[i], num.padd(ONE, V[i], -1)):
            for f, g in flat(a, b):
                # cross product of lam e_i with f e_a + g e_b
                h = [{}, {}, {}]
                s = 1 if (i, a, b) in ((0, 1, 2), (2, 0, 1)) else -1
                h[b] = num.padd({}, num.pmul(lam, f), s)
                h[a] = num.padd({}, num.pmul(lam, g), -s)
                out.append(h)
    return out


@space("enriched Galerkin")
def _(cell, k, kw):
    return scal(lagrange(cell, k))


@space("enriched vector Galerkin")
def _(cell, k, kw):
    return vec(geo.TDIM[cell], lagrange(cell, k))


# ------------------------------------------------------------------ spaces given by conditions
def restrict(p, cell, verts):
    """Polynomial on an edge or face of the reference cell, in its own coordinates."""
    n = len(verts) - 1
    lins = []
    for i in range(3):
        c = [v[i] if i < len(v) else 0 for v in verts]
        lins.append(lin(c[0], *[c[j + 1] - c[0] for j in range(n)]))
    return num.pcompose(p, lins)


def pdeg(p):
    return max([sum(e) for e in p], default=-1)


def facets(cell):
    d = geo.TDIM[cell]
    out = []
    for ev in geo.entities(cell, d - 1):
        vs = [tuple(Fr(i) for i in geo.DEFAULT[cell][j]) for j in ev]
        if d == 2:
            t = [b - a for a, b in zip(*vs)]
            out.append((vs, [t[1], -t[0]]))
        else:
            a, b = [[q - p for p, q in zip(vs[0], v)] for v in vs[1:3]]
            out.append((vs, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]))
    return out


def dot(f, n):
    out = {}
    for p, c in zip(f, n):
        out = num.padd(out, p, c) if c else out
    return out


def cond_bdfm(cell, k, kw):
    d = geo.TDIM[cell]

    def ok(f):
        return max(pdeg(p) for p in f) <= k and all(pdeg(restrict(dot(f, n), cell, vs)) < k for vs, n in facets(cell))

    return d * comb(k + d, d) - (d + 1) * comb(k + d - 2, d - 2), ok


def cond_mtw(cell, k, kw):
    if cell != "triangle":

        def ok3(f):
            return pdeg(modlin.div(f)[0]) <= 0 and all(pdeg(restrict(dot(f, n), cell, vs)) <= 1 for vs, n in facets(cell)) and max(pdeg(p) for p in f) <= 4

        return 24, ok3

    def ok(f):
        return max(pdeg(p) for p in f) <= 3 and pdeg(modlin.div(f)[0]) <= 0 and all(pdeg(restrict(dot(f, n), cell, vs)) <= 1 for vs, n in facets(cell))

    return 9, ok


def cond_bell(cell, k, kw):
    def ok(f):
        g = modlin.grad(f, 2)
        return pdeg(f[0]) <= 5 and all(pdeg(restrict(dot(g, n), cell, vs)) <= 3 for vs, n in facets(cell))

    return 18, ok


def cond_aw(cell, k, kw):
    """Symmetric matrices of degree k whose divergence has degree k - 2."""

    def ok(f):
        return f[1] == f[2] and max(pdeg(p) for p in f) <= k and all(pdeg(modlin.div(f[2 * i : 2 * i + 2])[0]) <= k - 2 for i in range(2))

    return 3 * comb(k + 2, 2) - 2 * k, ok


def cond_ncaw(cell, k, kw):
    def ok(f):
        return f[1] == f[2] and max(pdeg(p) for p in f) <= 2 and all(pdeg(restrict(dot([dot(f[:2], n), dot(f[2:], n)], n), cell, vs)) <= 1 for vs, n in facets(cell))

    return 15, ok


def cond_transition(cell, k, kw):
    d = geo.TDIM[cell]
    edges = geo.entities(cell, 1)
    want = d + 1 + sum(o - 1 for o in kw["edge_orders"]) + comb(k - 1, d)
    if d == 3:
        want += sum(comb(o - 1, 2) for o in kw["face_orders"])

    def ok(f):
        for ev, o in zip(edges, kw["edge_orders"]):
            if pdeg(restrict(f[0], cell, [tuple(Fr(i) for i in geo.DEFAULT[cell][j]) for j in ev])) > o:
                return False
        if d == 3:
            for ev, o in zip(geo.entities(cell, 2), kw["face_orders"]):
                # a face carries its own order and those of its edges
                es = [kw["edge_orders"][n] for n, e in enumerate(edges) if set(e) <= set(ev)]
                if pdeg(restrict(f[0], cell, [tuple(Fr(i) for i in geo.DEFAULT[cell][j]) for j in ev])) > max(es + [o]):
                    return False
        return True

    return want, ok


CONDITIONS = {
    "Brezzi-Douglas-Fortin-Marini": cond_bdfm,
    "Mardal-Tai-Winther": cond_mtw,
    "Bell": cond_bell,
    "Arnold-Winther": cond_aw,
    "nonconforming Arnold-Winther": cond_ncaw,
    "transition": cond_transition,
}


# ------------------------------------------------------------------ checks
def as_fields(fs, what):
    out = []
    for f in fs:
        out.append(modlin.field(f))
    return out


def evaluate(fields, pts):
    """Published fields at points, [field][point * component]."""
    out = []
    for f in fields:
        cols = [sum((float(c) * np.prod([pts[:, i] ** m[i] for i in range(pts.shape[1])], axis=0) for m, c in p.items()), np.zeros(len(pts))) for p in f]
        out.append(np.array(cols).T.ravel())
    return np.array(out)


def ev_functions(fs, cell, pts):
    ev = num.Ev(fs, lam=num.lam_mp)
    vals = np.asarray(ev(pts))
    return vals.reshape(len(fs), -1)


def compare(name, fs, want, cell, ctx, what):
    """Spans of element's functions and published fields agree."""
    try:
        got = as_fields(fs, name)
    except modlin.NotRational:
        d = geo.TDIM[cell]
        rng = np.random.RandomState(11)
        n = 3 * len(fs) // (2 * len(want[0])) + 6
        pts = rng.rand(n, d) / (2 if d < 3 else 3) + 0.01
        A = ev_functions(fs, cell, pts)
        B = evaluate(want, pts)
        if A.shape[1] != B.shape[1]:
            check(False, f"{name}: {what} has {A.shape[1] // n} components")
        A = A / np.abs(A).max(axis=1)[:, None]
        q, r, _ = np.linalg.svd(B, full_matrices=False)[2], None, None
        s = np.linalg.svd(B, compute_uv=False)
        rk = int((s > 1e-11 * s[0]).sum())
        q = q[:rk]
        res = np.abs(A - A @ q.T @ q).max(axis=1)
        ctx.label("irrational")
        check((res < 1e-6).all(), f"{name}: {what} {int(res.argmax())} is not in the published space ({res.max():.1e})")
        return None
    ncomp = {len(f) for f in got}
    check(ncomp == {len(want[0])}, f"{name}: {what} has {ncomp} components, the published space {len(want[0])}")
    bad = modlin.contains(want, got)
    check(not bad, f"{name}: {what} {bad[0] if bad else ''} is not in the published space: {fs[bad[0]] if bad else ''}")
    bad = modlin.contains(got, want)
    check(not bad, f"{name}: {what} does not contain {[str(num.pto_sympy(p)) for p in want[bad[0]]] if bad else ''}")
    return got


def to_symfem(f, shape):
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction

    es = [num.pto_sympy(p) for p in f]
    if shape[0] == "scalar":
        return ScalarFunction(es[0])
    if shape[0] == "vector":
        return VectorFunction(tuple(es))
    return MatrixFunction(tuple(tuple(es[i * shape[2] + j] for j in range(shape[2])) for i in range(shape[1])))


def prop(case, ctx):
    cell, fam, k, kw = case["cfg"]
    name = elems.cfg_name(case["cfg"])
    e = elems.get(*case["cfg"])
    ctx.label(f"family:{fam}", f"cell:{cell}", f"order:{k}")
    want = SPACES.get(fam, lambda *a: None)(cell, k, kw)
    basis = e.get_basis_functions() if case["basis"] else None
    ciarlet = isinstance(e, CiarletElement)
    lists = []
    if ciarlet:
        lists.append((e.get_polynomial_basis(), "member"))
    if basis is not None:
        lists.append((basis, "basis function"))
    if not lists:
        return
    if e.space_dim < 2:
        ctx.trivial("one function")
    if want is not None:
        dim = modlin.rank(want)
        if fam.startswith("enriched"):
            dim = e.space_dim  # (a discontinuous function is added to a space that contains it)
        check(e.space_dim == dim, f"{name}: space_dim is {e.space_dim}, the published dimension {dim}")
        for fs, what in lists:
            check(len(fs) == dim, f"{name}: {len(fs)} {what}s, the published dimension is {dim}")
            compare(name, fs, want, cell, ctx, what)
            ctx.count()
    elif fam in CONDITIONS:
        dim, ok = CONDITIONS[fam](cell, k, kw)
        check(e.space_dim == dim, f"{name}: space_dim is {e.space_dim}, the published dimension {dim}")
        for fs, what in lists:
            got = None
            try:
                got = as_fields(fs, name)
            except modlin.NotRational:
                ctx.label("irrational")
                continue
            check(modlin.rank(got) == dim, f"{name}: {what}s have rank {modlin.rank(got)}, not {dim}")
            for f, g in zip(got, fs):
                check(ok(f), f"{name}: {what} {g} does not satisfy the published conditions")
                ctx.count()
        want = got
    else:
        raise core.HarnessError(f"no published space for {fam}")
    if not case["basis"] or not want or not ciarlet:
        return
    # partition of unity
    if all(type(d) is PointEvaluation for d in e.dofs) and num.shape_and_flat(basis[0])[0] == ("scalar",) and not modlin.contains(want, [[ONE]]):
        ctx.count()
        ctx.label("partition of unity")
        total = sum((num.raw(f) for f in basis), sympy.Integer(0))
        v = num.lam_mp([total - 1])(np.random.RandomState(3).rand(5, geo.TDIM[cell]) / 3)
        check(np.abs(v).max() < 1e-10, f"{name}: the basis functions do not sum to one")
    # a random member is reproduced from its DOF values
    if case["member"]:
        f = [{} for _ in want[0]]
        n = len(want)
        for i, c in case["member"]:
            f = [num.padd(a, b, c) for a, b in zip(f, want[i % n])]
        shape = num.shape_and_flat(basis[0])[0]
        g = to_symfem(f, shape if len(f) > 1 or shape[0] != "scalar" else ("scalar",))
        vals = [num.raw(d.eval(g)) for d in e.dofs]
        pts = np.random.RandomState(5).rand(4, geo.TDIM[cell]) / 3
        A = ev_functions(basis, cell, pts)
        c = np.array([float(v) for v in vals])
        B = evaluate([f], pts)[0]
        ctx.count()
        ctx.label("reproduced member")
        err = np.abs(c @ A - B).max() / (1 + np.abs(B).max() + np.abs(c).max())
        check(err < 1e-8, f"{name}: the interpolant of {g} differs from it by {err:.1e}")


def explicit(case, ctx):
    """Families whose basis functions are published in closed form."""
    cell, fam, k, kw = case["cfg"]
    name = elems.cfg_name(case["cfg"])
    e = elems.get(*case["cfg"])
    got = as_fields(e.get_basis_functions(), name)
    ctx.label(f"explicit:{fam}")
    if fam == "Bernstein":
        want = []
        lam = BARY[cell]
        for a in itertools.product(range(k + 1), repeat=len(lam)):
            if sum(a) == k:
                c = factorial(k)
                for i in a:
                    c //= factorial(i)
                want.append(num.padd({}, mul(*[num.ppow(b, i) if i else ONE for b, i in zip(lam, a)]), c))
    else:  # Lagrange of degree one, cardinal functions of the vertices
        want = BARY[cell]
    have = [f[0] for f in got]
    for w in want:
        ctx.count()
        check(w in have, f"{name}: {num.pto_sympy(w)} is not a basis function")
    check(len(have) == len(want), f"{name}: {len(have)} functions")
    for i, f in enumerate(have):
        # each is attached to the smallest sub-entity off whose vertices' barycentric coordinates it vanishes
        if fam == "Bernstein" and k > 0:
            d, n = e.dof_entities()[i]
            ev = geo.entities(cell, d)[n]
            lam = BARY[cell]
            on = {j for j in range(len(lam)) if restrict(f, cell, [tuple(Fr(c) for c in geo.DEFAULT[cell][m]) for m in range(len(lam)) if m != j]) == {}}
            check(on == set(ev), f"{name}: basis function {i} vanishes opposite the vertices {sorted(on)} but belongs to {(d, n)}")


def pyramid(case, ctx):
    cell, fam, k, kw = case["cfg"]
    name = elems.cfg_name(case["cfg"])
    e = elems.get(*case["cfg"])
    rng = np.random.RandomState(2)
    n = 2 * e.space_dim + 8
    pts = rng.rand(n, 3) * 0.9
    pts[:, 0] *= 1 - pts[:, 2]
    pts[:, 1] *= 1 - pts[:, 2]
    w = 1 - pts[:, 2]
    rows = [(pts[:, 0] / w) ** i * (pts[:, 1] / w) ** j * w**m for i in range(k + 1) for j in range(k + 1) for m in range(max(i, j), k + 1)]
    q = np.linalg.svd(np.array(rows), full_matrices=False)[2]
    check(e.space_dim == len(rows) == (k + 1) * (k + 2) * (2 * k + 3) // 6, f"{name}: space_dim {e.space_dim}")
    for fs, what in [(e.get_polynomial_basis(), "member")] + ([(e.get_basis_functions(), "basis function")] if case["basis"] else []):
        A = ev_functions(fs, cell, pts)
        A = A / np.abs(A).max(axis=1)[:, None]
        res = np.abs(A - A @ q.T @ q).max(axis=1)
        ctx.count()
        check((res < 1e-6).all(), f"{name}: {what} {fs[int(res.argmax())]} is not in the published space")
        s = np.linalg.svd(A, compute_uv=False)
        check(s[-1] > 1e-9 * s[0], f"{name}: {what}s are dependent")
    ctx.label("family:Lagrange", "cell:pyramid")


# ------------------------------------------------------------------ macro elements
def small(p):
    return all(abs(v) < 1e-9 for v in p.values())


def macro(case, ctx):
    """Piecewise spaces: degree of the pieces, smoothness between them, independence and number."""
    cell, fam, k, kw = case["cfg"]
    name = elems.cfg_name(case["cfg"])
    e = elems.get(*case["cfg"])
    count, degree, smooth = {
        "Hsieh-Clough-Tocher": (12, 3, "C1"),
        "reduced Hsieh-Clough-Tocher": (9, 3, "C1"),
        "P1-iso-P2": ({"interval": 3, "triangle": 6, "quadrilateral": 9}[cell] if fam == "P1-iso-P2" else 0, 1, "C0"),
        "P1 macro": (4, 1, "C0"),
        "Alfeld-Sorokina": (15, 2, "C0div"),
        "Guzman-Neilan": (11, 2, "C0constdiv"),
    }[fam]
    fs = e.get_basis_functions()
    ctx.label(f"family:{fam}", f"cell:{cell}")
    check(len(fs) == e.space_dim == count, f"{name}: {len(fs)} functions, {count} published")
    tagged = []
    for n, f in enumerate(fs):
        ps = num.pieces(f)
        check(ps is not None, f"{name}: function {n} is not piecewise")
        fields = []
        for c, vs, g in ps:
            p = [num.poly(q) for q in num.shape_and_flat(g)[1]]
            if c == "quadrilateral":
                check(all(max(m, default=0) <= degree for q in p for m in q), f"{name}: a piece of function {n} is {g}")
            else:
                check(max(pdeg(q) for q in p) <= degree, f"{name}: a piece of function {n} is {g}")
            fields.append((c, [tuple(geo.F(i) for i in v) for v in vs], p))
        for (c1, v1, p1), (c2, v2, p2) in itertools.combinations(fields, 2):
            common = [v for v in v1 if v in v2]
            if len(common) != geo.TDIM[cell]:
                continue
            diffs = [num.padd(a, b, -1) for a, b in zip(p1, p2)]
            if smooth == "C1":
                diffs = diffs + [g for q in diffs for g in modlin.grad([q], 2)]
            if smooth == "C0div":
                diffs = diffs + modlin.div(diffs)
            for q in diffs:
                ctx.count()
                check(small(restrict(q, cell, common)) if len(common) > 1 else num.peval(q, common[0] + (0,) * (3 - len(common[0]))) == 0, f"{name}: function {n} is not {smooth} between its pieces on {v1} and {v2}")
        if smooth == "C0constdiv":
            check(all(pdeg(modlin.div(p)[0]) <= 0 for _, _, p in fields), f"{name}: the divergence of function {n} is not constant on the pieces")
        if fam == "reduced Hsieh-Clough-Tocher":
            for vs, nrm in facets(cell):
                mine = [p for c, v, p in fields if all(w in v for w in vs)]
                high = restrict(dot(modlin.grad(mine[0], 2), nrm), cell, vs)
                check(len(mine) == 1 and small({m: v for m, v in high.items() if sum(m) > 1}), f"{name}: the normal derivative of function {n} on the edge {vs} is not linear")
        tagged.append([q for _, _, p in sorted(fields, key=lambda t: str(t[1])) for q in p])
    if any(isinstance(v, float) for f in tagged for p in f for v in p.values()):
        keys = sorted({(i, m) for f in tagged for i, p in enumerate(f) for m in p})
        A = np.array([[float(f[i].get(m, 0)) for i, m in keys] for f in tagged])
        check(num.rank(A) == count, f"{name}: the functions are dependent")
        return
    check(modlin.rank(tagged) == count, f"{name}: the functions are dependent")
    low = {"P1-iso-P2": P(geo.TDIM[cell], 1), "P1 macro": P(2, 1), "Hsieh-Clough-Tocher": P(2, 3), "reduced Hsieh-Clough-Tocher": P(2, 2)}.get(fam)
    if low is None:
        low = vec(2, P(2, k))
    else:
        low = scal(low)
    npieces = len(tagged[0]) // len(low[0])
    bad = modlin.contains(tagged, [f * npieces for f in low])
    check(not bad, f"{name}: {low[bad[0]] if bad else ''} is not in the space")
    if fam == "P1-iso-P2":
        # the nodal basis: one at one point of the refined mesh, zero at the others
        d = geo.TDIM[cell]
        pts = {v for n in range(1) for _, vs, _ in num.pieces(fs[0]) for v in [tuple(geo.F(i) for i in w) for w in vs]}
        check(len(pts) == count, f"{name}: {len(pts)} vertices of pieces")
        hit = set()
        for n, f in enumerate(fs):
            vals = {p: [num.peval(modlin.field(g)[0], p + (0,) * (3 - d)) for c, vs, g in num.pieces(f) if geo.in_cell(vs, c, p)] for p in pts}
            one = [p for p, v in vals.items() if set(v) == {1}]
            check(len(one) == 1 and all(set(v) == {0} for p, v in vals.items() if p not in one), f"{name}: function {n} has the nodal values {vals}")
            hit.add(one[0])
        check(len(hit) == count, f"{name}: two functions for one point")


def lumped(case, ctx):
    """The DOFs of the mass-lumped elements are the terms of a quadrature rule that is exact to the published degree."""
    cell, fam, k, kw = case["cfg"]
    e = elems.get(*case["cfg"])
    d = geo.TDIM[cell]
    deg = {("triangle", 1): 1, ("triangle", 2): 3, ("triangle", 3): 5, ("tetrahedron", 1): 1, ("tetrahedron", 2): 4}[cell, k]
    c = case["coeffs"]
    ms = exps(d, deg, lambda m: sum(m) <= deg)
    p = {m: Fr(c[i % len(c)] + i % 3) for i, m in enumerate(ms)}
    p = {m: v for m, v in p.items() if v}
    f = to_symfem([p], ("scalar",))
    got = sum(float(num.raw(q.eval(f))) for q in e.dofs)
    want = num.pintegral_ref(p, cell)
    ctx.count()
    ctx.label("family:Kong-Mulder-Veldhuizen", "lumping")
    check(abs(got - want) < 1e-10 * (1 + sum(abs(v) for v in p.values())), f"KMV {cell} {k}: the weighted points give {got} for the integral {want} of {f}")


def direct_serendipity(case, ctx):
    """The direct serendipity spaces have the published dimension and contain the polynomials."""
    k = case["order"]
    e = elems.get("quadrilateral", "direct serendipity", k, {})
    want = 4 if k == 1 else comb(k + 2, 2) + 2
    ctx.label("family:direct serendipity", f"order:{k}")
    fs = e.get_basis_functions()
    check(len(fs) == e.space_dim == want, f"direct serendipity/{k}: {len(fs)} functions, {want} published")
    pts = np.random.RandomState(8).rand(3 * want + 5, 2)
    A = ev_functions(fs, "quadrilateral", pts)
    A = A / np.abs(A).max(axis=1)[:, None]
    s = np.linalg.svd(A, compute_uv=False)
    check(s[-1] > 1e-12 * s[0], f"direct serendipity/{k}: dependent functions")
    p = {m: Fr(case["coeffs"][i % len(case["coeffs"])]) for i, m in enumerate(exps(2, k, lambda m: sum(m) <= k))}
    B = evaluate([[p]], pts)[0]
    sol, *_ = np.linalg.lstsq(A.T, B, rcond=None)
    err = np.abs(sol @ A - B).max() / (1 + np.abs(B).max())
    ctx.count()
    check(err < 1e-7, f"direct serendipity/{k}: the polynomial {num.pto_sympy(p)} is not in the space ({err:.1e})")


MACRO = ["Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher", "P1-iso-P2", "P1 macro", "Alfeld-Sorokina", "Guzman-Neilan"]


def make_groups(tier, seed):
    q = tier == "quick"
    out = []
    coeffs = st.lists(st.integers(-9, 9).filter(bool), min_size=3, max_size=9)
    seen = set()
    for slow, r in [(0, r) for r in elems.table()] + [(1, r) for r in elems.creatable()]:
        cfg = elems.cfg(r)
        name = elems.cfg_name(cfg)
        if name in seen:
            continue
        seen.add(name)
        fam, cell, k = r["name"], r["cell"], r["order"]
        limit = 0.25 if q else 30
        if fam == "direct serendipity" or fam in MACRO:
            continue
        if r.get("create", 0) > (0.5 if q else 20):
            continue
        if r["dim"] > (130 if q else 400):
            continue
        odd = r["kwargs"].get("variant") in ("legendre", "lobatto", "radau")
        if fam == "bubble" and q and odd and r["dim"] > 4:
            continue
        basis = not slow and r["cost"] <= (limit if not (q and odd) else 0.08)
        if fam.startswith("enriched") and not basis:
            continue
        if cell == "pyramid":
            out.append(Group(f"pyramid/{name}", pyramid, [{"cfg": cfg, "basis": basis}], 1, 1))
            continue
        member = st.just([])
        n = 1
        if basis and r["cost"] < (0.1 if q else 3) and r["dim"] <= (24 if q else 80):
            member = st.lists(st.tuples(st.integers(0, 400), st.integers(-9, 9).filter(bool)), min_size=2, max_size=8)
            n = 1 if q else 4
        out.append(Group(f"space/{name}", prop, st.fixed_dictionaries({"cfg": st.just(cfg), "basis": st.just(basis), "member": member}), n, r["dim"] / 20))
        if fam == "Bernstein" or (fam == "Lagrange" and k == 1 and cell in BARY and r["kwargs"].get("variant") == "equispaced"):
            if basis:
                out.append(Group(f"explicit/{name}", explicit, [{"cfg": cfg}], 1, 1))
        if fam == "Kong-Mulder-Veldhuizen":
            out.append(Group(f"lumped/{name}", lumped, st.fixed_dictionaries({"cfg": st.just(cfg), "coeffs": coeffs}), 3 if q else 20, 1))
    for r in elems.table():
        if r["name"] in MACRO and r["cost"] < (2 if q else 60):
            out.append(Group(f"macro/{elems.cfg_name(elems.cfg(r))}", macro, [{"cfg": elems.cfg(r)}], 1, 5))
    for k in range(1, 7 if q else 11):
        out.append(Group(f"direct/{k}", direct_serendipity, st.fixed_dictionaries({"order": st.just(k), "coeffs": coeffs}), 2 if q else 6, k))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C17", make_groups, RULE))

"""Strategies. Every case is JSON: rationals are ints or 'p/q' strings."""

from fractions import Fraction as Fr

from hypothesis import strategies as st

from . import geo


def js(f):
    f = Fr(f)
    return int(f) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def ints(lo, hi):
    return st.integers(lo, hi)


_RATS = sorted({Fr(a, b) for b in (1, 2, 3) for a in range(-4, 5)}, key=lambda f: (f.denominator, abs(f), f < 0))
_POS = [f for f in _RATS if f > 0]
_NZ = [f for f in _RATS if f != 0]


def rats():
    return st.sampled_from(_RATS).map(js)


def nonzero():
    return st.sampled_from(_NZ).map(js)


def positive():
    return st.sampled_from(_POS).map(js)


@st.composite
def affine(draw, d, gdim=None, orientation=None):
    """Invertible affine map as {'A': rows, 'b': vector}; A = P L U with nonzero diagonal.

    With gdim > d the extra rows are arbitrary (still injective)."""
    gdim = gdim or d
    small = st.sampled_from([Fr(0), Fr(1), Fr(-1), Fr(1, 2), Fr(2), Fr(-1, 2), Fr(-2)])
    diag = st.sampled_from([Fr(1), Fr(2), Fr(-1), Fr(1, 2), Fr(3), Fr(-2), Fr(-1, 3)])
    U = [[draw(diag) if i == j else (draw(small) if j > i else Fr(0)) for j in range(d)] for i in range(d)]
    L = [[Fr(1) if i == j else (draw(small) if j < i else Fr(0)) for j in range(d)] for i in range(d)]
    A = [[sum((L[i][k] * U[k][j] for k in range(d)), Fr(0)) for j in range(d)] for i in range(d)]
    perm = draw(st.permutations(range(d)))
    A = [A[i] for i in perm]
    for _ in range(gdim - d):
        A.append([draw(small) for _ in range(d)])
    if gdim > d:
        rowperm = draw(st.permutations(range(gdim)))
        A = [A[i] for i in rowperm]
    b = [draw(small) for _ in range(gdim)]
    if orientation is not None and gdim == d and (geo.det(A) > 0) != (orientation > 0):
        A[0] = [-i for i in A[0]]
    return {"A": [[js(i) for i in r] for r in A], "b": [js(i) for i in b]}


def aff_of(case):
    return geo.Affine(case["A"], case["b"])


def verts_of(case, cell):
    return aff_of(case).verts(cell)


def weights(cell, strict=False):
    """Barycentric-like weights over the default vertices."""
    k = len(geo.DEFAULT[cell])
    lo = 1 if strict else 0
    return st.lists(st.integers(lo, 6), min_size=k, max_size=k).filter(lambda w: sum(w) > 0)


@st.composite
def polynomial(draw, nvars, maxdeg=3, nterms=4):
    """[[exponents..., coefficient], ...]"""
    n = draw(st.integers(1, nterms))
    out = {}
    for _ in range(n):
        e = [0, 0, 0]
        left = maxdeg
        for i in range(nvars):
            e[i] = draw(st.integers(0, left))
            left -= e[i]
        out[tuple(e)] = draw(nonzero())
    return [[list(k), v] for k, v in sorted(out.items())]


def pd(p):
    """polynomial case -> {exponents: Fraction}"""
    return {tuple(e): Fr(c) for e, c in p if Fr(c) != 0}


def psym(p, vars=None):
    from . import num

    return num.pto_sympy(pd(p), vars or num.X)

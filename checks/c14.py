"""C14: declared polynomial and Lagrange degrees."""

import itertools
import json
import os
import sys
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, geo, num
from vlib.core import Group, check

import numpy as np
from numpy.polynomial import legendre as L

from symfem.finite_element import CiarletElement

RULE = (
    "a case is (family, cell, order, variant) with random coefficients of members; non-trivial if the element "
    "has more than one function; a violation is a declared degree for which containment fails or is not extremal"
)


# ------------------------------------------------------------------ spaces by well-conditioned bases
def leg(n, t):
    """Shifted Legendre polynomials 0..n at t, [degree][point]."""
    return L.legvander(2 * np.asarray(t) - 1, max(n, 0)).T[: n + 1]


def poly_space(d, k, pts):
    if k < 0:
        return np.zeros((0, len(pts)))
    tab = [leg(k, pts[:, i]) for i in range(d)]
    return np.array([np.prod([tab[i][e[i]] for i in range(d)], axis=0) for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]).reshape(-1, len(pts))


def lagrange_space(cell, k, pts):
    d = geo.TDIM[cell]
    if k < 0:
        return np.zeros((0, len(pts)))
    if cell in ("interval", "triangle", "tetrahedron"):
        return poly_space(d, k, pts)
    if cell in ("quadrilateral", "hexahedron"):
        tab = [leg(k, pts[:, i]) for i in range(d)]
        return np.array([np.prod([tab[i][e[i]] for i in range(d)], axis=0) for e in itertools.product(range(k + 1), repeat=d)])
    if cell == "prism":
        a, b = poly_space(2, k, pts[:, :2]), leg(k, pts[:, 2])
        return np.array([i * j for i in a for j in b])
    w = 1 - pts[:, 2]
    a, b = leg(k, pts[:, 0] / w), leg(k, pts[:, 1] / w)
    return np.array([a[i] * b[j] * w**m for i in range(k + 1) for j in range(k + 1) for m in range(max(i, j), k + 1)])


def components(e, ncomp, shape):
    """Basis of the value space as rows of ncomp numbers."""
    vt = e.value_type
    if "symmetric" in vt:
        if shape[0] == "matrix":
            n = shape[1]
        else:
            n = int(round(ncomp**0.5))
            if n * n != ncomp:
                n = {3: 2, 6: 3}[ncomp]
                return np.eye(ncomp)
        out = []
        for i in range(n):
            for j in range(i, n):
                m = np.zeros((n, n))
                m[i, j] = m[j, i] = 1
                out.append(m.ravel())
        return np.array(out)
    return np.eye(ncomp)


def spread(S, comps):
    """Scalar space [function][point] -> [function*component][point*ncomp]."""
    if not len(S):
        return np.zeros((0, S.shape[1] * comps.shape[1]))
    return np.array([np.multiply.outer(s, c).ravel() for s in S for c in comps])


# ------------------------------------------------------------------ exact: coefficients modulo a prime
PRIME = 2147483629


def reduce_mod(rows, pivots=None):
    """Row echelon form modulo PRIME (rows), and pivot columns; pivots: an echelon form to reduce by first."""
    if not len(rows):
        return [], []
    A = np.array(rows, dtype=np.int64).reshape(len(rows), -1) % PRIME
    if pivots is not None:
        for r, c in zip(*pivots):
            A = (A - A[:, c : c + 1] * r[None, :]) % PRIME
    out, cols = [], []
    for c in range(A.shape[1]):
        if not len(A):
            break
        nz = np.nonzero(A[:, c])[0]
        if not len(nz):
            continue
        r = A[nz[0]] * pow(int(A[nz[0], c]), -1, PRIME) % PRIME
        A = np.delete(A, nz[0], axis=0)
        A = (A - A[:, c : c + 1] * r[None, :]) % PRIME
        A = A[A.any(axis=1)]
        out.append(r)
        cols.append(c)
    return out, cols


class ExactSpace:
    """Span of rows of exact coefficients."""

    def __init__(self, rows):
        self.ech = reduce_mod(rows)

    def contains(self, rows):
        if not len(rows):
            return True
        A = np.array(rows, dtype=np.int64) % PRIME
        for r, c in zip(*self.ech):
            A = (A - A[:, c : c + 1] * r[None, :]) % PRIME
        return not A.any()


def exponents(kind, cell, d, k):
    if k < 0:
        return []
    allof = itertools.product(range(k + 1), repeat=d)
    if kind == "lagrange" and cell in ("quadrilateral", "hexahedron"):
        return list(allof)
    if kind == "lagrange" and cell == "prism":
        return [e for e in allof if e[0] + e[1] <= k]
    return [e for e in allof if sum(e) <= k]


class Exact:
    """The members as rows of monomial coefficients; None-like (ok False) when that is not possible."""

    def __init__(self, cell, d, fs):
        self.ok = False
        if cell == "pyramid" or any(num.pieces(f) is not None for f in fs):
            return
        self.rows = []
        try:
            for f in fs:
                self.shape, fl = num.shape_and_flat(f)
                self.ncomp = len(fl)
                self.rows.append([num.poly(c) for c in fl])
        except num.PolyFail:
            return
        if any(not isinstance(c, (int, Fr)) for r in self.rows for p in r for c in p.values()):
            return
        if any(any(m[d:]) for r in self.rows for p in r for m in p):
            return
        self.cell, self.d, self.ok = cell, d, True

    def setup(self, kinds_degrees, comps):
        mons = {m[: self.d] for r in self.rows for p in r for m in p}
        for kind, k in kinds_degrees:
            mons |= set(exponents(kind, self.cell, self.d, k))
        # highest degrees first: few fill-ins
        self.col = {m: i for i, m in enumerate(sorted(mons, key=lambda m: (-sum(m), m)))}
        self.comps = comps
        out = np.zeros((len(self.rows), len(self.col) * self.ncomp), dtype=np.int64)
        for n, r in enumerate(self.rows):
            for c, p in enumerate(r):
                for m, v in p.items():
                    v = Fr(v)
                    out[n, self.col[m[: self.d]] * self.ncomp + c] = v.numerator * pow(v.denominator, -1, PRIME) % PRIME
        return out

    def full(self, kind, k):
        ex = exponents(kind, self.cell, self.d, k)
        out = np.zeros((len(ex) * len(self.comps), len(self.col) * self.ncomp), dtype=np.int64)
        n = 0
        for e in ex:
            for c in self.comps:
                at = self.col[e] * self.ncomp
                out[n, at : at + self.ncomp] = c
                n += 1
        return out


class Space:
    def __init__(self, rows):
        self.n = rows.shape[1]
        if len(rows):
            rows = rows / np.maximum(np.linalg.norm(rows, axis=1, keepdims=True), 1e-300)
            u, s, vt = np.linalg.svd(rows, full_matrices=False)
            self.w = vt[: int((s > 1e-10 * s[0]).sum())]
        else:
            self.w = np.zeros((0, self.n))

    def residual(self, rows):
        if not len(rows):
            return 0.0
        r = rows - (rows @ self.w.T) @ self.w
        return float((np.linalg.norm(r, axis=1) / np.maximum(np.linalg.norm(rows, axis=1), 1e-300)).max())


def contained(a_space, rows, what):
    r = a_space.residual(rows)
    if r < 1e-7:
        return True
    if r > 1e-5:
        return False
    raise core.HarnessError(f"undecided containment, residual {r} ({what})")


def sample(cell, n):
    rng = np.random.RandomState(4711)
    k = len(geo.DEFAULT[cell])
    w = rng.dirichlet(np.ones(k) * 0.6, size=n)
    p = w @ np.array(geo.DEFAULT[cell], dtype=float).reshape(k, -1)
    if cell == "pyramid":
        p[:, 2] = np.minimum(p[:, 2], 0.97)
        p[:, :2] = p[:, :2] * (1 - p[:, 2:3]) / np.maximum(1 - p[:, 2:3], p[:, :2].max(1, keepdims=True))
    return p


def analyse(cfg):
    """True degrees, as far as they can be decided, and the declared ones."""
    cell, name, order, kw = cfg
    e = elems.get(cell, name, order, kw)
    d = geo.TDIM[cell]
    if isinstance(e, CiarletElement):
        # the space is that of the polynomial set (C01 compares it with the basis)
        fs = e.get_polynomial_basis()
    else:
        fs = e.get_basis_functions()
    return e, d, fs


def value(e, f):
    try:
        v = getattr(e, f)
    except NotImplementedError:
        return "undeclared"
    return v


def prop(case, ctx):
    cell = case["cfg"][0]
    e, d, fs = analyse(case["cfg"])
    name = elems.cfg_name(case["cfg"])
    ctx.label(f"cell:{cell}", f"value:{e.value_type}")
    if len(fs) < 2:
        ctx.trivial("one function")
    sub = {"lagrange": value(e, "lagrange_subdegree"), "polynomial": value(e, "polynomial_subdegree")}
    sup = {"lagrange": value(e, "lagrange_superdegree"), "polynomial": value(e, "polynomial_superdegree")}
    spaces = {"lagrange": lambda k, p: lagrange_space(cell, k, p), "polynomial": lambda k, p: poly_space(d, k, p)}
    degs = [i for i in list(sub.values()) + list(sup.values()) if isinstance(i, int)]
    top = max(degs + [0]) + 1
    c = [case["c"][i % len(case["c"])] * (1 + i // len(case["c"])) for i in range(len(fs))]
    ex = Exact(cell, d, fs)
    if ex.ok:
        ctx.label("exact")
        comps = components(e, ex.ncomp, ex.shape).astype(np.int64)
        V = ex.setup([(kind, top) for kind in spaces], comps)
        E = ExactSpace(V)
        member = np.array(c, dtype=object) @ V.astype(object) % PRIME
        member = np.array([member], dtype=np.int64)

        def full(kind, k):
            return ex.full(kind, k)

        def span(rows):
            return ExactSpace(rows)

        def inside(space, rows):
            return space.contains(rows)

    else:
        ctx.label("sampled")
        n = spaces["lagrange"](top, sample(cell, 2)).shape[0] + len(fs)
        n = max(n, 40) + 20
        pts = sample(cell, n)
        shape, fl = num.shape_and_flat(fs[0]) if num.pieces(fs[0]) is None else num.shape_and_flat(num.pieces(fs[0])[0][2])
        V = num.Ev(fs, lam=num.lam if e.order < 6 or len(fs) > 60 else num.lam_mp)(pts)
        comps = components(e, V.shape[2], shape)
        V = V.reshape(len(fs), -1)
        E = Space(V)
        nv = np.maximum(np.linalg.norm(V, axis=1, keepdims=True), 1e-300)
        member = (np.array(c, dtype=float)[:, None] * V / nv).sum(0, keepdims=True)

        def full(kind, k):
            return spread(spaces[kind](k, pts), comps)

        def span(rows):
            return Space(rows)

        def inside(space, rows):
            return contained(space, rows, name)

    for kind in ("lagrange", "polynomial"):
        k = sub[kind]
        if k != "undeclared":
            ctx.count(2)
            check(isinstance(k, int) and k >= -1, f"{name}: {kind}_subdegree is {k!r}")
            check(inside(E, full(kind, k)), f"{name}: the full {kind} space of degree {k} ({kind}_subdegree) is not in the element")
            check(not inside(E, full(kind, k + 1)), f"{name}: the full {kind} space of degree {k + 1} is in the element, but {kind}_subdegree is {k}")
        k = sup[kind]
        if k == "undeclared":
            ctx.label(f"{kind}_superdegree undeclared")
            continue
        ctx.count(2)
        if k is None:
            ctx.label(f"{kind}_superdegree None")
            check(not inside(span(full(kind, top)), V), f"{name} is in the {kind} space of degree {top}, but {kind}_superdegree is None")
        else:
            check(isinstance(k, int) and k >= 0, f"{name}: {kind}_superdegree is {k!r}")
            S = span(full(kind, k))
            check(inside(S, V), f"{name} is not in the {kind} space of degree {k} ({kind}_superdegree)")
            check(inside(S, member), f"{name}: a member is not in the {kind} space of degree {k}")
            check(not inside(span(full(kind, k - 1)), V), f"{name} is in the {kind} space of degree {k - 1}, but {kind}_superdegree is {k}")
        if isinstance(sub[kind], int) and isinstance(k, int):
            check(sub[kind] <= k, f"{name}: {kind} subdegree {sub[kind]} exceeds superdegree {k}")
    # Lagrange spaces of degree k contain the polynomials of degree k
    if isinstance(sub["lagrange"], int) and isinstance(sub["polynomial"], int) and cell != "pyramid":
        check(sub["lagrange"] <= sub["polynomial"], f"{name}: Lagrange subdegree {sub['lagrange']} exceeds polynomial subdegree {sub['polynomial']}")
    # maximum_degree bounds the degree of each polynomial
    try:
        m = e.maximum_degree
    except NotImplementedError:
        ctx.label("maximum_degree undeclared")
        return
    plain = [f for f in fs if num.pieces(f) is None] or [g for f in fs for _, _, g in num.pieces(f)]
    worst = -1
    for f in plain:
        for comp in num.shape_and_flat(f)[1]:
            if not comp.is_polynomial(*num.X):
                ctx.label("not polynomial")
                return
            for mono in num.poly(comp):
                worst = max(worst, max(mono) if cell in ("quadrilateral", "hexahedron") else max(mono[0] + mono[1], mono[2]) if cell == "prism" else sum(mono))
    ctx.count()
    check(isinstance(m, int) and m >= worst, f"{name}: maximum_degree is {m}, but there is a member of degree {worst}")


@st.composite
def cases(draw, cfg):
    return {"cfg": cfg, "c": draw(st.lists(st.integers(-9, 9).filter(bool), min_size=3, max_size=9))}


def make_groups(tier, seed):
    """Only the polynomial set is needed: also configurations whose basis takes long."""
    quick = tier == "quick"
    out = []
    seen = set()
    with open(os.path.join(boot.VERIF, "data", "c14slow.json")) as f:
        slow = {"/".join(k.split("/")[:3]) for k in json.load(f)}

    def add(c, cost):
        if c[0] in geo.TDIM and not (quick and elems.cfg_name(c[:3]) in slow):
            seen.add((c[0], c[1], c[2]))
            out.append(Group(f"degrees/{elems.cfg_name(c)}", prop, cases(c), 1 if quick else 3, cost))

    for r in elems.select(1e9):
        c = elems.cfg(r)
        direct = r["map"] == "direct" or r["pw"]
        if not quick or r["cost"] <= 0.5 or tuple(c[:3]) not in seen and (r["cost"] <= 1.2 or not direct):
            add(c, r["cost"] if direct else min(r["cost"], 1))
    for r in elems.creatable():
        c = elems.cfg(r)
        if not quick or tuple(c[:3]) not in seen and r["create"] <= 0.35 and r["dim"] <= 130:
            add(c, r["create"] + r["dim"] / 40)
    return out


if __name__ == "__main__":
    sys.exit(core.main("C14", make_groups, RULE))

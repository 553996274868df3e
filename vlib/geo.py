"""Independent cell geometry: topology tables, affine maps, point location, quadrature."""

import math
from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np

DEFAULT = {
    "point": ((),),
    "interval": ((0,), (1,)),
    "triangle": ((0, 0), (1, 0), (0, 1)),
    "quadrilateral": ((0, 0), (1, 0), (0, 1), (1, 1)),
    "tetrahedron": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "hexahedron": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)),
    "prism": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)),
    "pyramid": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)),
}
TDIM = {"point": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3,
        "prism": 3, "pyramid": 3}  # fmt: skip
# the vertices (besides vertex 0) that span the axes
AXES = {"point": (), "interval": (1,), "triangle": (1, 2), "quadrilateral": (1, 2), "tetrahedron": (1, 2, 3),
        "hexahedron": (1, 2, 4), "prism": (1, 2, 3), "pyramid": (1, 2, 4)}  # fmt: skip
VOLUME = {"point": Fr(0), "interval": Fr(1), "triangle": Fr(1, 2), "quadrilateral": Fr(1), "tetrahedron": Fr(1, 6),
          "hexahedron": Fr(1), "prism": Fr(1, 2), "pyramid": Fr(1, 3)}  # fmt: skip
EDGES = {
    "point": (),
    "interval": ((0, 1),),
    "triangle": ((1, 2), (0, 2), (0, 1)),
    "quadrilateral": ((0, 1), (0, 2), (1, 3), (2, 3)),
    "tetrahedron": ((2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)),
    "hexahedron": ((0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)),
    "prism": ((0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)),
    "pyramid": ((0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)),
}
FACES = {
    "point": (),
    "interval": (),
    "triangle": ((0, 1, 2),),
    "quadrilateral": ((0, 1, 2, 3),),
    "tetrahedron": ((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)),
    "hexahedron": ((0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)),
    "prism": ((0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)),
    "pyramid": ((0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)),
}


def entities(cell, dim):
    if dim == 0:
        return tuple((i,) for i in range(len(DEFAULT[cell])))
    if dim == TDIM[cell]:
        return (tuple(range(len(DEFAULT[cell]))),)
    return {1: EDGES, 2: FACES}[dim][cell] if dim in (1, 2) else ()


def cell_by_nverts(dim, n):
    for c, v in DEFAULT.items():
        if TDIM[c] == dim and len(v) == n:
            return c
    raise KeyError((dim, n))


def closure(cell, dim, n):
    """All (dim, number) of sub-entities contained in sub-entity (dim, n)."""
    vs = set(entities(cell, dim)[n])
    out = []
    for d in range(dim + 1):
        for i, e in enumerate(entities(cell, d)):
            if set(e) <= vs:
                out.append((d, i))
    return out


# ---------------------------------------------------------------- exact linear algebra
def F(v):
    """Anything rational-like -> Fraction."""
    if isinstance(v, Fr):
        return v
    if isinstance(v, (int, str)):
        return Fr(v)
    if hasattr(v, "p") and hasattr(v, "q"):
        return Fr(int(v.p), int(v.q))
    if isinstance(v, float):
        return Fr(v)
    raise TypeError(f"not rational: {v!r}")


def FV(v):
    return tuple(F(i) for i in v)


def det(m):
    m = [list(r) for r in m]
    n = len(m)
    if n == 0:
        return Fr(1)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    out = 0
    for j in range(n):
        minor = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        out += (-1) ** j * m[0][j] * det(minor)
    return out


def inv(m):
    n = len(m)
    d = det(m)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
            out[j][i] = (-1) ** (i + j) * det(minor) / d
    return out


def matvec(m, v):
    return tuple(sum((a * b for a, b in zip(r, v)), Fr(0)) for r in m)


class Affine:
    """x -> A x + b, exact; A has gdim rows and tdim columns."""

    def __init__(self, A, b):
        self.A = [[F(i) for i in r] for r in A]
        self.b = FV(b)

    @classmethod
    def from_vertices(cls, cell, verts):
        verts = [FV(v) for v in verts]
        cols = [[a - o for a, o in zip(verts[i], verts[0])] for i in AXES[cell]]
        A = [[c[r] for c in cols] for r in range(len(verts[0]))]
        return cls(A, verts[0])

    def __call__(self, p):
        return tuple(
            sum((a * c for a, c in zip(r, FV(p))), Fr(0)) + b for r, b in zip(self.A, self.b)
        )

    def np(self, pts):
        A = np.array([[float(i) for i in r] for r in self.A]).reshape(len(self.b), -1)
        return pts @ A.T + np.array([float(i) for i in self.b])

    @property
    def det(self):
        return det(self.A)

    def inverse(self):
        iA = inv(self.A)
        return Affine(iA, tuple(-i for i in matvec(iA, self.b)))

    def verts(self, cell):
        return tuple(self(v) for v in DEFAULT[cell])

    def compose(self, other):
        """self o other"""
        A = [
            [sum((self.A[i][k] * other.A[k][j] for k in range(len(other.A))), Fr(0)) for j in range(len(other.A[0]))]
            for i in range(len(self.A))
        ]
        return Affine(A, self(other.b))


def in_reference(cell, p):
    """Membership (closed) of exact point p in the default cell."""
    if cell == "point":
        return True
    if cell == "interval":
        return 0 <= p[0] <= 1
    if cell in ("triangle", "tetrahedron"):
        return all(i >= 0 for i in p) and sum(p) <= 1
    if cell in ("quadrilateral", "hexahedron"):
        return all(0 <= i <= 1 for i in p)
    if cell == "prism":
        return p[0] >= 0 and p[1] >= 0 and p[0] + p[1] <= 1 and 0 <= p[2] <= 1
    if cell == "pyramid":
        return p[0] >= 0 and p[1] >= 0 and 0 <= p[2] <= 1 and p[0] + p[2] <= 1 and p[1] + p[2] <= 1
    raise KeyError(cell)


def local_coords(verts, cell, p):
    """Coordinates of p in the affine (possibly embedded) cell, or None when off its plane."""
    verts = [FV(v) for v in verts]
    p = FV(p)
    o = verts[0]
    ax = [tuple(a - b for a, b in zip(verts[i], o)) for i in AXES[cell]]
    d = tuple(a - b for a, b in zip(p, o))
    n = len(ax)
    G = [[sum(a * b for a, b in zip(u, v)) for v in ax] for u in ax]
    rhs = [sum(a * b for a, b in zip(u, d)) for u in ax]
    c = matvec(inv(G), rhs) if n else ()
    back = tuple(sum((ci * a[k] for ci, a in zip(c, ax)), Fr(0)) for k in range(len(o)))
    if back != d:
        return None
    return c


def in_cell(verts, cell, p):
    c = local_coords(verts, cell, p)
    return c is not None and in_reference(cell, c)


def interior_point(cell, weights):
    """Convex combination of the default vertices with the given positive weights."""
    vs = DEFAULT[cell]
    w = [F(i) for i in weights][: len(vs)]
    s = sum(w)
    return tuple(sum((wi * F(v[k]) for wi, v in zip(w, vs)), Fr(0)) / s for k in range(TDIM[cell]))


# ---------------------------------------------------------------- float quadrature
@lru_cache(None)
def gauss(n):
    p, w = np.polynomial.legendre.leggauss(n)
    return (p + 1) / 2, w / 2


@lru_cache(None)
def quad(cell, deg):
    """Quadrature on the default cell, exact for polynomials of total/each degree deg."""
    n = deg // 2 + 2
    p, w = gauss(n)
    if cell == "point":
        return np.zeros((1, 0)), np.ones(1)
    if cell == "interval":
        return p.reshape(-1, 1), w
    if cell == "quadrilateral":
        X, Y = np.meshgrid(p, p, indexing="ij")
        return np.stack([X.ravel(), Y.ravel()], 1), np.outer(w, w).ravel()
    if cell == "hexahedron":
        X, Y, Z = np.meshgrid(p, p, p, indexing="ij")
        return np.stack([X.ravel(), Y.ravel(), Z.ravel()], 1), np.einsum("i,j,k->ijk", w, w, w).ravel()
    n2 = n + 2
    p, w = gauss(n2)
    if cell == "triangle":
        U, V = np.meshgrid(p, p, indexing="ij")
        W = np.outer(w, w) * (1 - U)
        return np.stack([U.ravel(), (V * (1 - U)).ravel()], 1), W.ravel()
    if cell == "tetrahedron":
        U, V, T = np.meshgrid(p, p, p, indexing="ij")
        W = np.einsum("i,j,k->ijk", w, w, w) * (1 - U) ** 2 * (1 - V)
        return (
            np.stack([U.ravel(), (V * (1 - U)).ravel(), (T * (1 - U) * (1 - V)).ravel()], 1),
            W.ravel(),
        )
    if cell == "prism":
        tp, tw = quad("triangle", deg)
        ip, iw = quad("interval", deg)
        pts = np.array([[a[0], a[1], b[0]] for a in tp for b in ip])
        return pts, np.outer(tw, iw).ravel()
    if cell == "pyramid":
        U, V, T = np.meshgrid(p, p, p, indexing="ij")
        W = np.einsum("i,j,k->ijk", w, w, w) * (1 - T) ** 2
        return np.stack([(U * (1 - T)).ravel(), (V * (1 - T)).ravel(), T.ravel()], 1), W.ravel()
    raise KeyError(cell)


def quad_on(verts, cell, deg):
    """Points, weights on an affine (possibly embedded) cell, plus reference points."""
    p, w = quad(cell, deg)
    v = np.array([[float(F(i)) if not isinstance(i, float) else i for i in q] for q in verts], dtype=float)
    o = v[0]
    ax = np.array([v[i] - o for i in AXES[cell]]).reshape(len(AXES[cell]), len(o))
    pts = p @ ax + o if len(AXES[cell]) else np.array([o])
    J = math.sqrt(abs(np.linalg.det(ax @ ax.T))) if len(AXES[cell]) else 1.0
    return pts, w * J, p


def simplex_integral(expo):
    """Exact integral of the monomial over the default simplex."""
    num = 1
    for e in expo:
        num *= math.factorial(e)
    return Fr(num, math.factorial(sum(expo) + len(expo)))


def monomial_integral(cell, expo):
    """Exact integral of x^a y^b z^c over the default cell."""
    if cell in ("interval", "triangle", "tetrahedron"):
        return simplex_integral(expo)
    if cell in ("quadrilateral", "hexahedron"):
        out = Fr(1)
        for e in expo:
            out /= e + 1
        return out
    if cell == "prism":
        return simplex_integral(expo[:2]) / (expo[2] + 1)
    if cell == "pyramid":
        a, b, c = expo  # int_0^1 z^c (1-z)^(a+b+2) / ((a+1)(b+1))
        m = a + b + 2
        return Fr(math.factorial(c) * math.factorial(m), math.factorial(c + m + 1)) / ((a + 1) * (b + 1))
    raise KeyError(cell)

"""Spans of polynomial fields with rational coefficients, modulo a prime (no conditioning to worry about)."""

from fractions import Fraction as Fr

import numpy as np

from . import num

PRIME = 2147483629


class NotRational(Exception):
    pass


def field(f):
    """A symfem function as a list of polynomials, one per component."""
    if num.pieces(f) is not None:
        raise NotRational("piecewise")
    try:
        out = [num.poly(c) for c in num.shape_and_flat(f)[1]]
    except num.PolyFail as e:
        raise NotRational(str(e))
    if any(not isinstance(c, (int, Fr)) for p in out for c in p.values()):
        raise NotRational("irrational coefficients")
    return out


def reduce_mod(A, ech=None):
    """Row echelon form [(row, pivot column)]."""
    A = np.array(A, dtype=np.int64) % PRIME
    if not A.size:
        return []
    out = []
    for c in range(A.shape[1]):
        if not len(A):
            break
        nz = np.nonzero(A[:, c])[0]
        if not len(nz):
            continue
        r = A[nz[0]] * pow(int(A[nz[0], c]), -1, PRIME) % PRIME
        A = np.delete(A, nz[0], axis=0)
        hit = np.nonzero(A[:, c])[0]
        if len(hit):
            A[hit] = (A[hit] - A[hit, c : c + 1] * r[None, :]) % PRIME
        out.append((r, c))
    return out


class World:
    """Matrices of several lists of fields with common columns (component, exponents)."""

    def __init__(self, *lists):
        keys = {(i, m) for fs in lists for f in fs for i, p in enumerate(f) for m in p}
        # high degrees first
        order = sorted(keys, key=lambda k: (-sum(k[1]), k[1], k[0]))
        self.col = {k: n for n, k in enumerate(order)}

    def mat(self, fs):
        A = np.zeros((len(fs), len(self.col)), dtype=np.int64)
        for n, f in enumerate(fs):
            for i, p in enumerate(f):
                for m, c in p.items():
                    c = Fr(c)
                    A[n, self.col[i, m]] = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
        return A


def rank(fs):
    return len(reduce_mod(World(fs).mat(fs)))


def contains(space, fs):
    """Indices of the fields of fs that are not in the span of space."""
    w = World(space, fs)
    A = w.mat(fs)
    for r, c in reduce_mod(w.mat(space)):
        hit = np.nonzero(A[:, c])[0]
        if len(hit):
            A[hit] = (A[hit] - A[hit, c : c + 1] * r[None, :]) % PRIME
    return [int(i) for i in np.nonzero(A.any(axis=1))[0]]


# ------------------------------------------------------------------ calculus on lists of polynomials
def grad(f, d):
    return [num.pdiff(f[0], i) for i in range(d)]


def rot2(f):
    """Rotated gradient of a scalar in 2D."""
    return [num.pdiff(f[0], 1), num.padd({}, num.pdiff(f[0], 0), -1)]


def curl2(f):
    return [num.padd(num.pdiff(f[1], 0), num.pdiff(f[0], 1), -1)]


def curl3(f):
    return [
        num.padd(num.pdiff(f[2], 1), num.pdiff(f[1], 2), -1),
        num.padd(num.pdiff(f[0], 2), num.pdiff(f[2], 0), -1),
        num.padd(num.pdiff(f[1], 0), num.pdiff(f[0], 1), -1),
    ]


def div(f):
    out = {}
    for i, p in enumerate(f):
        out = num.padd(out, num.pdiff(p, i))
    return [out]

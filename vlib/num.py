"""Independent evaluation of symfem functions, and exact polynomial arithmetic."""

from fractions import Fraction as Fr

import numpy as np
import sympy

from . import geo

X = sympy.symbols("x y z")
T = sympy.symbols("t0 t1 t2")


def raw(f):
    """symfem function / number / nested sequence -> plain sympy (Expr, tuple, Matrix or list)."""
    if hasattr(f, "as_sympy"):
        return f.as_sympy()
    return f


def shape_and_flat(s):
    """Flatten sympy value: ('scalar'|('vector',n)|('matrix',r,c)), list of Expr."""
    s = raw(s)
    if isinstance(s, (sympy.MatrixBase,)):
        return ("matrix", s.rows, s.cols), [s[i, j] for i in range(s.rows) for j in range(s.cols)]
    if isinstance(s, (tuple, list)):
        if len(s) and isinstance(s[0], (tuple, list)):
            return ("matrix", len(s), len(s[0])), [sympy.sympify(j) for i in s for j in i]
        return ("vector", len(s)), [sympy.sympify(i) for i in s]
    return ("scalar",), [sympy.sympify(s)]


def pieces(f):
    """Pieces of a piecewise function as [(cell, vertices, function)], or None."""
    if hasattr(f, "pieces"):
        out = []
        for vs, g in f.pieces.items():
            vs = tuple(tuple(v) for v in vs)
            d = len(vs[0])
            out.append((geo.cell_by_nverts(d, len(vs)), vs, g))
        return out
    return None


def exact_at(f, p, vars=X):
    """Exact value (flat list of sympy numbers) at a rational point by sympy's own substitution."""
    ps = pieces(f)
    if ps is not None:
        for cell, vs, g in ps:
            if geo.in_cell(vs, cell, p):
                return exact_at(g, p, vars)
        raise ValueError("point in no piece")
    _, fl = shape_and_flat(f)
    sub = {v: sympy.Rational(geo.F(c).numerator, geo.F(c).denominator) for v, c in zip(vars, p)}
    return [e.subs(sub, simultaneous=True) for e in fl]


def R(v):
    """Fraction-like -> sympy Rational."""
    v = geo.F(v)
    return sympy.Rational(v.numerator, v.denominator)


def RP(p):
    return tuple(R(i) for i in p)


def frac(e):
    e = sympy.sympify(e)
    if e.is_Rational:
        return Fr(int(e.p), int(e.q))
    e = sympy.simplify(e)
    if e.is_Rational:
        return Fr(int(e.p), int(e.q))
    raise ValueError(f"not rational: {e}")


def lam(exprs, vars=X):
    """Vectorised float evaluator for a list of sympy expressions."""
    exprs = [sympy.sympify(e) for e in exprs]
    f = sympy.lambdify(vars, exprs, modules="numpy", cse=True)

    def g(pts):
        pts = np.asarray(pts, dtype=float)
        cols = [pts[:, i] if i < pts.shape[1] else np.zeros(len(pts)) for i in range(len(vars))]
        with np.errstate(all="ignore"):
            vals = f(*cols)
        return np.array([np.broadcast_to(np.asarray(v, dtype=float), (len(pts),)) for v in vals])

    return g


def lam_mp(exprs, vars=X, digits=50):
    """As lam, evaluating with many digits (for badly scaled polynomials)."""
    import mpmath

    f = sympy.lambdify(vars, [sympy.sympify(e) for e in exprs], modules="mpmath", cse=True)

    def g(pts):
        out = []
        with mpmath.workdps(digits):
            for p in pts:
                out.append([float(v) for v in f(*([mpmath.mpf(float(c)) for c in p] + [0] * (len(vars) - len(p))))])
        return np.array(out).T

    return g


class PolyFail(Exception):
    pass


def poly(e, vars=X):
    """Expr -> {exponents: Fraction or float} or PolyFail."""
    e = sympy.sympify(e)
    try:
        p = sympy.Poly(e, *vars)
    except sympy.PolynomialError:
        e = sympy.cancel(e)
        try:
            p = sympy.Poly(e, *vars)
        except sympy.PolynomialError:
            raise PolyFail(str(e)[:80])
    out = {}
    for m, c in p.terms():
        if c.is_Rational:
            out[m] = Fr(int(c.p), int(c.q))
        else:
            if c.free_symbols:
                raise PolyFail(str(e)[:80])
            out[m] = float(c)
    return {m: c for m, c in out.items() if c != 0}


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
        if out[m] == 0:
            del out[m]
    return out


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(i + j for i, j in zip(m, n))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c != 0}


def ppow(a, n, nv=3):
    out = {(0,) * nv: Fr(1)}
    for _ in range(n):
        out = pmul(out, a)
    return out


def pcompose(a, lins, nv=3):
    """a(lins[0], lins[1], ...), with lins polynomials."""
    out = {}
    powers = {}
    for m, c in a.items():
        term = {(0,) * nv: c}
        for i, e in enumerate(m):
            if e:
                if (i, e) not in powers:
                    powers[i, e] = ppow(lins[i], e, nv)
                term = pmul(term, powers[i, e])
        out = padd(out, term)
    return out


def pdiff(a, i):
    out = {}
    for m, c in a.items():
        if m[i]:
            k = list(m)
            k[i] -= 1
            out[tuple(k)] = c * m[i]
    return out


def peval(a, p):
    out = Fr(0)
    for m, c in a.items():
        t = c
        for e, v in zip(m, p):
            t = t * geo.F(v) ** e
        out = out + t
    return out


def pintegral_ref(a, cell):
    """Exact integral over the default cell of a polynomial in its first tdim variables."""
    d = geo.TDIM[cell]
    out = Fr(0)
    for m, c in a.items():
        assert not any(m[d:]), "polynomial in more variables than the cell has"
        out = out + c * geo.monomial_integral(cell, m[:d])
    return out


def pto_sympy(a, vars=X):
    return sympy.Add(*[R(c) * sympy.Mul(*[v**e for v, e in zip(vars, m)]) for m, c in a.items()])


def affine_polys(aff):
    """The components of an Affine as polynomials in three variables."""
    out = []
    for r, b in zip(aff.A, aff.b):
        d = {}
        for j, a in enumerate(r):
            if a:
                k = [0, 0, 0]
                k[j] = 1
                d[tuple(k)] = a
        if b:
            d[0, 0, 0] = b
        out.append(d)
    return out


# ------------------------------------------------------------------ numeric linear algebra
def rank(M, tol=1e-9):
    M = np.asarray(M, dtype=float)
    if M.size == 0:
        return 0
    n = np.linalg.norm(M, axis=1, keepdims=True)
    M = M[n[:, 0] > 0] / n[n[:, 0] > 0]
    if M.size == 0:
        return 0
    s = np.linalg.svd(M, compute_uv=False)
    return int((s > tol * max(M.shape) * s[0]).sum())


def in_span(basis, v, tol=1e-7):
    """Is each row of v in the row span of basis (scaled residual)?"""
    B = np.asarray(basis, dtype=float)
    V = np.atleast_2d(np.asarray(v, dtype=float))
    if B.size == 0:
        return [bool(np.abs(r).max() < 1e-9) for r in V]
    q, s, vt = np.linalg.svd(B / np.maximum(np.linalg.norm(B, axis=1, keepdims=True), 1e-300), full_matrices=False)
    r = int((s > 1e-11 * s[0] * max(B.shape)).sum())
    W = vt[:r]
    res = V - (V @ W.T) @ W
    scale = np.maximum(np.linalg.norm(V, axis=1), 1e-300)
    return [bool(a <= tol * max(b, 1e-12) or b < 1e-12) for a, b in zip(np.linalg.norm(res, axis=1), scale)]


def allclose(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    if a.size == 0:
        return True
    return bool(np.abs(a - b).max() <= tol * max(1.0, np.abs(a).max(), np.abs(b).max()))


# ------------------------------------------------------------------ vectorised evaluation
class Ev:
    """Evaluator for a list of symfem functions (plain or piecewise) at float points.

    Calling it gives an array [function][point][flattened component].
    """

    def __init__(self, funcs, vars=X, lam=lam):
        self.lam = lam
        self.funcs = list(funcs)
        self.vars = vars
        self.plain = [i for i, f in enumerate(self.funcs) if pieces(f) is None]
        self.shape = None
        self._plain = self._build([self.funcs[i] for i in self.plain])
        self._pw = {}
        for i, f in enumerate(self.funcs):
            ps = pieces(f)
            if ps is not None:
                self._pw[i] = [(c, vs, self._build([g])) for c, vs, g in ps]

    def _build(self, fs):
        flat = []
        n = None
        for f in fs:
            sh, fl = shape_and_flat(f)
            if self.shape is None:
                self.shape = sh
            if n is None:
                n = len(fl)
            if n != len(fl):
                raise ValueError("functions of different shapes")
            flat += fl
        if not flat:
            return None
        g = self.lam(flat, self.vars)
        return lambda pts: g(pts).reshape(len(fs), n, -1).transpose(0, 2, 1)

    def __call__(self, pts, piece=None):
        """piece: optional function point-row -> index of piece to use (else first containing)."""
        pts = np.asarray(pts, dtype=float)
        out = [None] * len(self.funcs)
        if self.plain:
            v = self._plain(pts)
            for k, i in enumerate(self.plain):
                out[i] = v[k]
        for i, ps in self._pw.items():
            vals = None
            done = np.zeros(len(pts), dtype=bool)
            for c, vs, g in ps:
                m = np.array([_in_float(c, vs, p) for p in pts]) & ~done
                if m.any():
                    v = g(pts[m])[0]
                    if vals is None:
                        vals = np.full((len(pts), v.shape[1]), np.nan)
                    vals[m] = v
                    done |= m
            if not done.all():
                raise ValueError("point outside all pieces")
            out[i] = vals
        return np.array(out)


def _in_float(cell, vs, p, eps=1e-9):
    v = np.array([[float(i) for i in q] for q in vs])
    if cell == "quadrilateral":  # possibly not a parallelogram: split
        return _in_float("triangle", [v[0], v[1], v[2]], p) or _in_float("triangle", [v[1], v[2], v[3]], p)
    ax = np.array([v[i] - v[0] for i in geo.AXES[cell]])
    c = np.linalg.lstsq(ax.T, np.asarray(p) - v[0], rcond=None)[0]
    if cell in ("interval",):
        return -eps <= c[0] <= 1 + eps
    if cell in ("triangle", "tetrahedron"):
        return bool((c >= -eps).all() and c.sum() <= 1 + eps)
    return bool((c >= -eps).all() and (c <= 1 + eps).all())


def sample_points(cell, n=6):
    """Fixed generic interior points of the default cell (unisolvent in practice)."""
    rng = np.random.RandomState(12345)
    k = len(geo.DEFAULT[cell])
    w = rng.dirichlet(np.ones(k) * 1.2, size=n)
    return w @ np.array(geo.DEFAULT[cell], dtype=float).reshape(k, -1)

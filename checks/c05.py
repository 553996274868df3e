"""C05: tabulation agrees with evaluating the basis functions, in every layout."""

import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import numpy as np
from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import sympy

RULE = (
    "a case is (element configuration, list of points of the cell in some number type and container, "
    "layouts and a call order); non-trivial if there is at least one point and more than one function; "
    "the oracle is the basis evaluated by lambdified sympy expressions, rearranged as documented"
)
LAYOUTS = ["xyzxyz", "xxyyzz", "xx,yy,zz", "xyz,xyz"]


def exact_points(case):
    cell = case["cfg"][0]
    out = []
    for w in case["pts"]:
        p = geo.interior_point(cell, w["w"])
        out.append(tuple(a + geo.F(b) for a, b in zip(p, w["off"])))
    return out


def present(p, form):
    if form == "float":
        return tuple(float(c) for c in p)
    if form == "Float":
        return tuple(sympy.Float(float(c)) for c in p)
    if form == "list":
        return list(num.RP(p))
    if form == "int":
        return tuple(int(c) if c.denominator == 1 else num.R(c) for c in p)
    return num.RP(p)


def arrange(V, layout):
    """V[function][component] -> nested list in the documented layout."""
    nf, nc = len(V), len(V[0])
    if layout == "xyzxyz":
        return [V[f][c] for f in range(nf) for c in range(nc)]
    if layout == "xxyyzz":
        return [V[f][c] for c in range(nc) for f in range(nf)]
    if layout == "xx,yy,zz":
        return [[V[f][c] for f in range(nf)] for c in range(nc)]
    return [[V[f][c] for c in range(nc)] for f in range(nf)]


def entries(v):
    """Components of one entry of a table."""
    if isinstance(v, sympy.MatrixBase):
        return [v[i, j] for i in range(v.rows) for j in range(v.cols)]
    if isinstance(v, (tuple, list)):
        return [b for a in v for b in entries(a)]
    return [v]


def compare(got, want, tol, ctx):
    """got: nested output; want: nested list of candidate tuples (several at piece interfaces)."""
    if isinstance(want, list):
        g = entries(got) if isinstance(got, sympy.MatrixBase) else got
        check(isinstance(g, (tuple, list)), f"expected a sequence of {len(want)}, got {type(got).__name__}")
        check(len(g) == len(want), f"expected a sequence of {len(want)}, got {len(g)}")
        for a, b in zip(g, want):
            compare(a, b, tol, ctx)
        return
    if isinstance(got, (tuple, list, sympy.MatrixBase)):
        raise core.Violation(f"expected a number, got {type(got).__name__}")
    ctx.count()
    v = float(got)
    check(any(abs(v - c) <= tol * max(1, abs(c)) for c in want), f"tabulated {v}, basis function has {want[0]}")


def candidates(e, pts):
    """[point][function][component] -> tuple of acceptable values."""
    basis = e.get_basis_functions()
    P = [[float(c) for c in p] for p in pts]
    res = [[None] * len(basis) for _ in pts]
    plain = [i for i, f in enumerate(basis) if num.pieces(f) is None]
    if plain and pts:
        v = num.Ev([basis[i] for i in plain])(P)
        for k, i in enumerate(plain):
            for q in range(len(pts)):
                res[q][i] = [(float(c),) for c in v[k][q]]
    for i, f in enumerate(basis):
        ps = num.pieces(f)
        if ps is None:
            continue
        for q, p in enumerate(pts):
            opts = []
            for cell, vs, g in ps:
                if num._in_float(cell, vs, P[q]):
                    opts.append(num.Ev([g])([P[q]])[0][0])
            if not opts:
                raise core.HarnessError("generated point in no piece")
            # the components must come from one piece: keep the distinct rows
            res[q][i] = [tuple(float(o[c]) for o in opts) for c in range(len(opts[0]))]
    return res


def run(e, what, pts, ctx, V, forms):
    scalar = e.range_dim == 1
    given = [present(p, f) for p, f in zip(pts, forms)]
    snapshot = [tuple(p) for p in given]
    if what == "float":
        tab = e.tabulate_basis_float(given)
        layout = "xyz,xyz"
    elif what == "default":
        tab = e.tabulate_basis(given)
        layout = "xyzxyz"
    elif what == "positional":
        tab = e.tabulate_basis(tuple(given), "xx,yy,zz")
        layout = "xx,yy,zz"
    elif what == "unknown":
        if scalar:
            return
        for bad in ("zyx", "", "xyz xyz", "xx,yy", "XYZXYZ"):
            try:
                e.tabulate_basis(given, bad)
            except (ValueError, AssertionError):
                continue
            raise core.Violation(f"tabulate_basis accepts the unknown layout {bad!r}")
        return
    else:
        tab = e.tabulate_basis(given, order=what)
        layout = what
    check([tuple(p) for p in given] == snapshot, "the list of points was modified")
    check(isinstance(tab, (list, tuple)) and len(tab) == len(pts), f"{len(tab)} rows for {len(pts)} points")
    for row, v in zip(tab, V):
        if scalar:
            want = [c[0] for c in v]
        else:
            want = arrange(v, layout)
        compare(row, want, 1e-8, ctx)
    ctx.label("call:" + what)


def prop(case, ctx):
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    pts = exact_points(case)
    ctx.label(f"cell:{cell}", f"value:{e.range_dim}", f"points:{min(len(pts), 4)}", *["form:" + w["form"] for w in case["pts"]])
    if not pts or e.space_dim < 2:
        ctx.trivial("no points" if not pts else "one function")
    V = candidates(e, pts)
    forms = [w["form"] for w in case["pts"]]
    for what in case["calls"]:
        run(e, what, pts, ctx, V, forms)
    if case["exact"] and pts and all(num.pieces(f) is None for f in e.get_basis_functions()) and forms[0] not in ("float", "Float"):
        n = case["fn"] % e.space_dim
        row = e.tabulate_basis([present(pts[0], forms[0])], "xyz,xyz")[0]
        got = entries(row[n])
        want = num.exact_at(e.get_basis_functions()[n], pts[0])
        for a, b in zip(got, want):
            ctx.count()
            check(not sympy.sympify(a).free_symbols and not sympy.sympify(a).has(sympy.Float) or sympy.sympify(b).has(sympy.Float), f"tabulated value {a} is not an exact number")
            d = sympy.sympify(a) - b
            check(d == 0 or sympy.simplify(d) == 0 or abs(float(d)) < 1e-20, f"exact tabulation gives {a}, the function has {b}")
        ctx.label("exact")


@st.composite
def cases(draw, cfg, pw):
    cell = cfg[0]
    t = geo.TDIM[cell]
    pts = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4, 0]))):
        if pts and draw(st.integers(0, 5)) == 0:
            pts.append(dict(pts[0]))
            continue
        off = [0] * t
        if not pw and draw(st.integers(0, 5)) == 0:
            off = [draw(st.sampled_from([0, 2, "-1/2"])) for _ in range(t)]
        pts.append({"w": draw(gen.weights(cell)), "off": off, "form": draw(st.sampled_from(["rat", "int", "float", "Float", "list"]))})
    calls = draw(st.permutations(LAYOUTS + ["default", "positional", "float", "unknown"]))
    k = draw(st.integers(2, 8))
    return {"cfg": cfg, "pts": pts, "calls": list(calls[:k]), "exact": draw(st.booleans()), "fn": draw(st.integers(0, 100))}


def make_groups(tier, seed):
    out = []
    lim = 0.25 if tier == "quick" else 1e9
    for r in elems.table():
        if r["cost"] > lim:
            continue
        c = elems.cfg(r)
        n = (6 if r["cost"] < 0.1 else 3) if tier == "quick" else (60 if r["cost"] < 1 else 12)
        out.append(Group(f"tab/{elems.cfg_name(c)}", prop, cases(c, r["pw"]), n, r["cost"] * 3))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C05", make_groups, RULE))

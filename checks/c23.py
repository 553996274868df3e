"""C23: TeX descriptions denote the function or functional they describe."""

import collections
import re
import sys

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num, tex
from vlib.core import Group, HarnessError, check

import mpmath
import numpy as np
import sympy

import symfem
from symfem.functions import parse_function_input
from symfem.piecewise_functions import PiecewiseFunction

from checks import c02

RULE = (
    "a case is a generated function (as_tex is parsed by an independent TeX reader and compared with the "
    "function at random points), a functional with generated arguments, or some DOFs of a created element "
    "(get_tex is parsed and evaluated on generated functions with independent quadrature and compared with "
    "eval; equal descriptions must belong to equal functionals); non-trivial if the value compared is not "
    "identically zero"
)
DIGITS = 40


# ------------------------------------------------------------------ functions
@st.composite
def scalar_expr(draw, nvars=3, tvars=False, depth=2):
    """Expression tree as nested lists."""
    k = draw(st.integers(0, 11 if depth else 3))
    if k <= 1:
        return ["q", draw(st.sampled_from(["0", "1", "-1", "2", "-3", "1/2", "-2/3", "7/12", "-11", "25/4", "100"]))]
    if k <= 3:
        names = (["t0", "t1", "t2"] if tvars else ["x", "y", "z"])[:nvars]
        return ["v", draw(st.sampled_from(names))]
    sub = scalar_expr(nvars, tvars, depth - 1)
    if k <= 6:
        return ["+", draw(sub), draw(sub)]
    if k <= 8:
        return ["*", draw(sub), draw(sub)]
    if k == 9:
        return ["^", draw(sub), draw(st.integers(2, 4))]
    if k == 10:
        return ["s", draw(st.sampled_from([2, 3, 5, 6])), draw(sub)]
    return ["/", draw(sub), draw(st.sampled_from(["1-z", "x+2", "3"]))]


SYM = {s.name: s for s in num.X + num.T}


def sym(e):
    k = e[0]
    if k == "q":
        return num.R(e[1])
    if k == "v":
        return SYM[e[1]]
    if k == "+":
        return sym(e[1]) + sym(e[2])
    if k == "*":
        return sym(e[1]) * sym(e[2])
    if k == "^":
        return sym(e[1]) ** e[2]
    if k == "s":
        return sympy.sqrt(e[1]) * sym(e[2])
    den = {"1-z": 1 - SYM["z"], "x+2": SYM["x"] + 2, "3": sympy.Integer(3)}[e[2]]
    return sym(e[1]) / den


def val(e, env):
    k = e[0]
    if k == "q":
        f = geo.F(e[1])
        return mpmath.mpf(f.numerator) / f.denominator
    if k == "v":
        return env[e[1]]
    if k == "+":
        return val(e[1], env) + val(e[2], env)
    if k == "*":
        return val(e[1], env) * val(e[2], env)
    if k == "^":
        return val(e[1], env) ** e[2]
    if k == "s":
        return mpmath.sqrt(e[1]) * val(e[2], env)
    return val(e[1], env) / {"1-z": 1 - env["z"], "x+2": env["x"] + 2, "3": mpmath.mpf(3)}[e[2]]


PTS = [("3/7", "-2/5", "5/11", "2/9", "4/5", "-7/13"), ("-11/8", "9/4", "-3/5", "17/6", "-1/7", "6/5")]
NAMES = ["x", "y", "z", "t0", "t1", "t2"]


def envs():
    for p in PTS:
        yield {n: mpmath.mpf(geo.F(c).numerator) / geo.F(c).denominator for n, c in zip(NAMES, p)}


def same_scalar(node, e, ctx, s):
    for env in envs():
        want = val(e, env)
        got = tex.evaluate(node, env)
        ctx.count()
        check(abs(got - want) <= mpmath.mpf(10) ** -25 * max(1, abs(want)), f"as_tex {s!r} denotes {mpmath.nstr(got, 8)}, the function is {mpmath.nstr(want, 8)} at {env}")
        if want != 0:
            ctx.nonzero = True


def read(s, functional=False):
    try:
        if functional:
            p = tex.Parser(s, True)
            e = p.expr()
            p.done()
            return p, e
        return tex.parse(s)
    except tex.Bad as e:
        raise core.Violation(f"TeX {s!r} cannot be read: {e}")


def matrix_nodes(node, rows, cols, s):
    check(node[0] == "mat", f"{s!r} is not an array")
    check(len(node[1]) == rows and all(len(r) == cols for r in node[1]), f"{s!r} is not {rows} x {cols}")
    return [c for r in node[1] for c in r]


def prop_function(case, ctx):
    ctx.nonzero = False
    ctx.label(f"function:{case['kind']}")
    with mpmath.workdps(DIGITS):
        exprs = case["e"]
        if case["kind"] == "scalar":
            f = parse_function_input(sym(exprs[0]))
            s = f.as_tex()
            same_scalar(read(s), exprs[0], ctx, s)
        elif case["kind"] == "vector":
            f = parse_function_input(tuple(sym(e) for e in exprs))
            s = f.as_tex()
            for n, e in zip(matrix_nodes(read(s), len(exprs), 1, s), exprs):
                same_scalar(n, e, ctx, s)
        elif case["kind"] == "matrix":
            r, c = case["shape"]
            f = parse_function_input(tuple(tuple(sym(exprs[i * c + j]) for j in range(c)) for i in range(r)))
            s = f.as_tex()
            for n, e in zip(matrix_nodes(read(s), r, c, s), exprs):
                same_scalar(n, e, ctx, s)
        if not ctx.nonzero:
            ctx.trivial("zero function")
        check(f.as_tex() == s, "as_tex gives different answers when called again")


@st.composite
def function_case(draw, kind):
    shape = (1, 1)
    if kind == "vector":
        shape = (draw(st.integers(1, 3)), 1)
    elif kind == "matrix":
        shape = draw(st.sampled_from([(1, 1), (2, 2), (3, 3), (2, 3), (3, 1)]))
    tv = draw(st.booleans())
    e = [draw(scalar_expr(3, tv)) for _ in range(shape[0] * shape[1])]
    if tv and any("z" in str(i) or "x+2" in str(i) for i in e):
        tv = False
    return {"kind": kind, "shape": list(shape), "e": e}


def split_top(s, sep):
    """Split at separators outside braces and environments."""
    out, depth, cur, i = [], 0, "", 0
    while i < len(s):
        if s.startswith("\\begin{", i):
            depth += 1
        elif s.startswith("\\end{", i):
            depth -= 1
        if s.startswith(sep, i) and depth == 0:
            out.append(cur)
            cur = ""
            i += len(sep)
            continue
        if s[i] == "\\" and i + 1 < len(s):
            cur += s[i : i + 2]
            i += 2
            continue
        cur += s[i]
        i += 1
    return out + [cur]


SHAPES = {"Interval": "interval", "Triangle": "triangle", "Quadrilateral": "quadrilateral", "Tetrahedron": "tetrahedron"}


def prop_piecewise(case, ctx):
    """cases environment: one row per piece, naming the piece's cell and its vertices."""
    ctx.nonzero = False
    cell = case["cell"]
    ctx.label(f"piecewise:{cell}:{case['kind']}")
    k = len(case["pieces"])
    pcs = {}
    for pc in case["pieces"]:
        vs = tuple(num.RP(geo.FV(v)) for v in pc["verts"])
        es = [sym(e) for e in pc["e"]]
        pcs[vs] = es[0] if case["kind"] == "scalar" else tuple(es)
    check_h(len(pcs) == k)
    f = PiecewiseFunction(pcs, geo.TDIM[cell])
    s = f.as_tex()
    try:
        tex.balanced(re.sub(r"\\text\{in \}", "", s))
    except tex.Bad as e:
        raise core.Violation(f"TeX {s!r} cannot be read: {e}")
    m = re.fullmatch(r"\s*\\begin\{cases\}(.*)\\end\{cases\}\s*", s, re.S)
    check(m, f"{s!r} is not a cases environment")
    rows = split_top(m.group(1).strip(), "\\\\")
    check(len(rows) == k, f"{k} pieces but {len(rows)} rows in {s!r}")
    left = {tuple(tuple(geo.F(c) for c in v) for v in pc["verts"]): pc for pc in case["pieces"]}
    with mpmath.workdps(DIGITS):
        for r in rows:
            parts = split_top(r, "&")
            check(len(parts) == 2, f"row {r!r} has {len(parts)} columns")
            mm = re.fullmatch(r"\\text\{in \}\s*\\operatorname\{(\w+)\}\s*(.*)", parts[1].strip(), re.S)
            check(mm, f"row {r!r} does not name a cell")
            name, vt = mm.group(1), mm.group(2)
            check(SHAPES.get(name) == cell, f"piece on a {cell} is described as {name}")
            nums = [geo.F(q) for q in re.findall(r"-?\d+(?:/\d+)?", vt)]
            d = geo.TDIM[cell]
            key = tuple(tuple(nums[i : i + d]) for i in range(0, len(nums), d))
            check(key in left, f"{vt!r} does not give the vertices of a piece")
            pc = left.pop(key)
            node = read(parts[0])
            nodes = [node] if case["kind"] == "scalar" else matrix_nodes(node, len(pc["e"]), 1, s)
            for n, e in zip(nodes, pc["e"]):
                same_scalar(n, e, ctx, s)
    if not ctx.nonzero:
        ctx.trivial("zero function")


def check_h(c):
    if not c:
        raise HarnessError("bad case")


@st.composite
def piecewise_case(draw, cell):
    d = geo.TDIM[cell]
    kind = draw(st.sampled_from(["scalar", "vector"]))
    pcs = []
    for i in range(draw(st.integers(1, 3))):
        mp = draw(gen.affine(d))
        verts = [[gen.js(c + (3 * i if j == 0 else 0)) for j, c in enumerate(v)] for v in gen.verts_of(mp, cell)]
        pcs.append({"verts": verts, "e": [draw(scalar_expr(d, False, 1)) for _ in range(1 if kind == "scalar" else d)]})
    seen = []
    for p in pcs:
        if p["verts"] not in [q["verts"] for q in seen]:
            seen.append(p)
    return {"cell": cell, "kind": kind, "pieces": seen}


# ------------------------------------------------------------------ functionals
VOLUMES = {"v": 0, "e": 1, "f": 2, "c": 3}


def definitions(defs, cell, ctx):
    """What the listed definitions say: {(kind, symbol...): entity}"""
    out = {}
    t = geo.TDIM[cell]
    for d in defs:
        try:
            tex.balanced(" ".join(re.findall(r"\\\((.*?)\\\)", d)))
        except tex.Bad as e:
            raise core.Violation(f"definition {d!r} cannot be read: {e}")
        m = re.fullmatch(r"\\\(R\\\) is the reference element", d)
        if m:
            out["entity", "R"] = (t, 0)
            continue
        m = re.fullmatch(r"\\\((\w)_\{?(\d+)\}?\\\) is the (\d+)(st|nd|rd|th) (vertex|edge|face|volume)", d)
        if m:
            n = int(m.group(3))
            suf = "th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")
            check(m.group(4) == suf, f"{n} has suffix {m.group(4)} in {d!r}")
            check(int(m.group(2)) == n, f"{d!r} gives another number to the symbol")
            dim = ["vertex", "edge", "face", "volume"].index(m.group(5))
            check(VOLUMES[m.group(1)] == dim, f"{d!r} uses the letter of another dimension")
            out["entity", f"{m.group(1)}_{{{n}}}"] = (dim, n)
            continue
        m = re.fullmatch(r"\\\(\\hat\{\\(?:boldsymbol|mathbf)\{([nt])\}\}_\{?(\d+)\}?\\\) is the (normal|tangent) to (facet|edge|face) (\d+)", d)
        if m:
            kind = {"n": "normal", "t": "tangent"}[m.group(1)]
            check(kind == m.group(3) and m.group(2) == m.group(5), f"{d!r} is inconsistent")
            dim = {"facet": t - 1, "edge": 1, "face": 2}[m.group(4)]
            out[kind, int(m.group(2))] = (dim, int(m.group(5)))
            continue
        raise core.Violation(f"definition {d!r} is not understood")
    return out


def entity_name(n):
    m = re.fullmatch(r"([vefc])_\{?(\d+)\}?", n)
    return f"{m.group(1)}_{{{m.group(2)}}}" if m else n


def describe(dof, fn, kind, cell, verts, deg):
    """Value of the functional described by dof.get_tex() for the function fn (independently)."""
    s, defs = dof.get_tex()
    check(isinstance(s, str) and isinstance(defs, list) and all(isinstance(d, str) for d in defs), "get_tex does not return a string and a list")
    try:
        tex.balanced(s)
    except tex.Bad as e:
        raise core.Violation(f"description {s!r} cannot be read: {e}")
    head = s.split("\\mapsto")
    check(len(head) == 2, f"{s!r} is not of the form v -> ...")
    check(re.fullmatch(r"\s*(\\(boldsymbol|mathbf)\{[vV]\}|[vV])\s*", head[0]), f"{head[0]!r} is not a function name")
    p, e = read(head[1], True)
    dd = definitions(defs, cell, None)
    for sy in p.symbols:
        key = ("entity", entity_name(sy[1])) if sy[0] == "entity" else (sy[0], sy[2])
        check(key in dd, f"{s!r} uses {sy} which is not defined in {defs}")
    g = len(verts[0])
    if p.integral is not None:
        check(not p.points, f"{s!r} has both an integral and a point")
        ent = dd["entity", entity_name(p.integral)]
        ec = c02.ecell(cell, ent)
        pts, w, loc = geo.quad_on(c02.entity_verts(verts, cell, ent), ec, deg)
        check(tuple(dof.entity) == ent, f"the DOF is attached to {dof.entity}, {s!r} is an integral over {ent}")
    else:
        check(len(p.points) == 1, f"{s!r} has no point and no integral")
        check(len(p.points[0]) == g, f"the point in {s!r} does not have {g} coordinates")
        with mpmath.workdps(DIGITS):
            try:
                pt = [float(tex.evaluate(c, {})) for c in p.points[0]]
            except tex.Bad as err:
                raise core.Violation(f"point in {s!r}: {err}")
        pts, w, loc = np.array([pt]), np.ones(1), np.array([[0.0, 0, 0]])
        dp = [float(c) for c in dof.dof_point()]
        check(num.allclose(dp, pt, 1e-12), f"{s!r} is at {pt}, the DOF is at {dp}")
        ent = tuple(dof.entity)
        ec = c02.ecell(cell, ent)
    env = {n: pts[:, i] for i, n in enumerate("xyz"[:g])}
    if p.integral is not None:
        for i in range(loc.shape[1]):
            env[f"t{i}"] = loc[:, i]
    ev = c02.entity_verts(verts, cell, ent)

    def vec(kind, n):
        if n is None:
            raise tex.Bad("direction of no entity")
        q = dd[kind, n]
        qv = c02.entity_verts(verts, cell, q)
        return c02.normal(qv, c02.ecell(cell, q)) if kind == "normal" else c02.tangent(qv)

    def size(name):
        q = dd["entity", entity_name(name)]
        return c02.jac(c02.entity_verts(verts, cell, q), c02.ecell(cell, q)) * float(geo.VOLUME[c02.ecell(cell, q)])

    def push(a):
        ax = np.array([c02.fl(ev[i]) - c02.fl(ev[0]) for i in geo.AXES[ec]])
        if len(a) != len(ax):
            raise tex.Bad("dot product of vectors of different lengths")
        return np.einsum("ik,ij->jk", a, ax) / c02._signed(ax)

    def v(dirs):
        comp = [c for c in fn]
        for d in dirs:
            comp = [_along(c, d) for c in comp]
        return [c02.pev(c, np.pad(pts, ((0, 0), (0, 3 - pts.shape[1])))) for c in comp]

    try:
        r = tex.Evaluator(env, v, g, vec, size, push, kind).ev(e)
        if r.kind != "s":
            raise tex.Bad("the value is not a number")
    except tex.Bad as err:
        raise core.Violation(f"description {s!r}: {err}")
    return s, float(np.sum(w * r.a))


def _along(p, d):
    out = {}
    for i, c in enumerate(d):
        if c:
            out = num.padd(out, num.pdiff(p, i), c)
    return out


def wrap(kind, comp, g):
    flat = [num.pto_sympy(c) for c in comp]
    if kind == "scalar":
        return flat[0]
    if kind == "vector":
        return tuple(flat)
    return tuple(tuple(flat[i * g + j] for j in range(g)) for i in range(g))


def compare(dof, fn, kind, cell, verts, ctx, deg=12):
    s, want = describe(dof, fn, kind, cell, verts, deg)
    got = float(sympy.N(num.raw(dof.eval(parse_function_input(wrap(kind, fn, len(verts[0]))))), 20))
    ctx.count()
    if abs(want) > 1e-12 or abs(got) > 1e-12:
        ctx.nonzero = True
    check(abs(got - want) <= 1e-8 * max(1, abs(got), abs(want)), f"{s!r} is {want}, the functional gives {got} for {wrap(kind, fn, len(verts[0]))}")
    return s


def prop_functional(case, ctx):
    """Functionals with generated arguments on the default cells."""
    ctx.nonzero = False
    dof, verts, pt, ref = c02.build(case)
    cell = case["cell"]
    ctx.label(f"class:{case['cls']}")
    for q in (case["f"], case["f2"]):
        compare(dof, [gen.pd(c) for c in q["pieces"][0]["comp"]], q["kind"], cell, verts, ctx)
    if not ctx.nonzero:
        ctx.trivial("zero value")


def prop_element(case, ctx):
    ctx.nonzero = False
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    verts = [geo.FV(v) for v in geo.DEFAULT[cell]]
    g = geo.TDIM[cell]
    kind, rows = element_kind(e)
    rnd = np.random.default_rng(case["seed"])
    # all descriptions: readable, defined, different
    by = collections.defaultdict(list)
    for i, d in enumerate(e.dofs):
        by[type(d).__name__, tuple(d.entity)[0]].append(i)
    fns = [[rand_poly(rnd, g, case["deg"]) for _ in range(rows)] for _ in range(2)]
    for k in sorted(by):
        ctx.label(f"dof:{k[0]}")
        for _ in range(case["per"]):
            i = by[k][int(rnd.integers(len(by[k])))]
            if k[0] == "BernsteinFunctional":
                bernstein(e.dofs[i], cell)
                ctx.nonzero = True
                continue
            compare(e.dofs[i], fns[0], kind, cell, verts, ctx)
    if not ctx.nonzero:
        ctx.trivial("zero value")


def element_kind(e):
    f = e.get_polynomial_basis()[0]
    if f.is_matrix:
        return "matrix", f.shape[0] * f.shape[1]
    return ("vector", f.shape[0]) if f.is_vector else ("scalar", 1)


def rand_poly(rnd, g, deg):
    out = {}
    for _ in range(7):
        m = [0, 0, 0]
        left = int(rnd.integers(0, deg + 1))
        for i in range(g - 1):
            m[i] = int(rnd.integers(0, left + 1))
            left -= m[i]
        m[g - 1] = left
        c = int(rnd.integers(-5, 6))
        if c:
            out[tuple(m)] = out.get(tuple(m), 0) + geo.F(c)
    return {m: c for m, c in out.items() if c}


def bernstein(dof, cell):
    """v -> c_i: coefficient of a Bernstein polynomial of the stated degree on the stated entity."""
    s, defs = dof.get_tex()
    tex_ok(s)
    m = re.fullmatch(r"v\\mapsto\s*c(?:\^\{(\w_\{\d+\})\})?_\{?(\d+)\}?", s)
    check(m, f"{s!r} is not a coefficient")
    inside = m.group(1) is None
    check(inside == (dof.entity[0] == geo.TDIM[cell]), f"{s!r} for the entity {dof.entity}")
    joined = " ".join(defs)
    check("Bernstein" in joined, "the Bernstein polynomials are not defined")
    if not inside:
        dd = definitions([d for d in defs if "Bernstein" not in d and "sum" not in d], cell, None)
        check(dd.get(("entity", m.group(1))) == tuple(dof.entity), f"{m.group(1)} is not defined as entity {dof.entity} by {defs}")
    deg = re.search(r"the degree (\d+) Bernstein", joined)
    check(deg and int(deg.group(1)) == dof.degree, f"degree in {defs}")


def tex_ok(s):
    try:
        tex.balanced(s)
    except tex.Bad as e:
        raise core.Violation(f"{s!r} cannot be read: {e}")


def prop_unique(case, ctx):
    """Descriptions of all the DOFs of an element: two that differ are described differently."""
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    seen = collections.defaultdict(list)
    for i, d in enumerate(e.dofs):
        s, defs = d.get_tex()
        tex_ok(s)
        seen[re.sub(r"\s", "", s), tuple(sorted(defs))].append(i)
        ctx.count()
    g = geo.TDIM[cell]
    kind, rows = element_kind(e)
    rnd = np.random.default_rng(5)
    for (s, _), ii in sorted(seen.items()):
        if len(ii) > 1:
            ctx.label("equal descriptions")
            for _ in range(2):
                fn = parse_function_input(wrap(kind, [rand_poly(rnd, g, 6) for _ in range(rows)], g))
                vals = [sympy.N(num.raw(e.dofs[i].eval(fn)), 20) for i in ii]
                for i, v in zip(ii, vals):
                    check(abs(v - vals[0]) < 1e-10, f"DOFs {ii[0]} and {i} differ but both are described as {s!r}")
    if len(e.dofs) < 2:
        ctx.trivial("one DOF")


def make_groups(tier, seed):
    quick = tier == "quick"
    out = []
    k = 1 if quick else 15
    for kind in ("scalar", "vector", "matrix"):
        for part in range(1 if quick else 4):
            out.append(Group(f"function/{kind}" + (f"/{part}" if part else ""), prop_function, function_case(kind), {"scalar": 120, "vector": 50, "matrix": 25}[kind] * k, 8))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        out.append(Group(f"piecewise/{cell}", prop_piecewise, piecewise_case(cell), 20 * k, 3))
    for n in c02.PT + c02.INT:
        cs = c02.functional_case(n).filter(lambda c: c["map"] is None)
        out.append(Group(f"functional/{n}", prop_functional, cs, (14 if quick else 100), 4))
    seen = set()
    lim = 60 if quick else 250
    for r in elems.table():
        c = elems.cfg(r)
        if not r["doft"] or r["dim"] > lim or r["pw"] and r["dim"] > 40:
            continue
        key = (r["cls"], r["cell"], min(r["order"], 3), str(r["doft"]), r["value"]) if quick else elems.cfg_name(c)
        if key in seen:
            continue
        seen.add(key)
        nm = elems.cfg_name(c)
        cost = 0.02 * r["dim"]
        out.append(Group(f"unique/{nm}", prop_unique, [{"cfg": c}], 1, cost))
        n = 1 if quick else 4
        out.append(Group(f"element/{nm}", prop_element, [{"cfg": c, "seed": seed * 1000 + i, "deg": 3 if r["order"] < 4 else 5, "per": 1 if quick else 2} for i in range(n)], 1, cost * 2 * n))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C23", make_groups, RULE))

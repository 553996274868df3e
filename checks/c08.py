"""C08: function algebra and calculus agree with mathematics."""

import operator
import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import sympy
from hypothesis import strategies as st
from symfem import create_reference
from symfem.functions import (
    AnyFunction,
    MatrixFunction,
    ScalarFunction,
    VectorFunction,
    parse_function_input,
    parse_function_list_input,
)

from vlib import core, gen, geo, num
from vlib.core import Group, check
from vlib.ratmodel import RF, Undefined

RULE = (
    "a case is an operation (or a tree of operations) with generated polynomial operands in some "
    "presentation (symfem function, sympy expression, int, list, tuple, sympy matrix); non-trivial if an "
    "operand is not constant; the oracle is exact rational function arithmetic (vlib/ratmodel.py)"
)
X = num.X
POINTS = [tuple(geo.Fr(c) for c in p) for p in (("1/2", "-2/3", "3/5"), ("-3/7", "5/2", "4/3"), ("7/3", "1/5", "-9/4"))]


# ------------------------------------------------------------------ model values
# ("s", RF) | ("v", [RF]) | ("m", [[RF]])
def mflat(v):
    k, a = v
    return [a] if k == "s" else list(a) if k == "v" else [c for r in a for c in r]


def mshape(v):
    k, a = v
    return ("scalar",) if k == "s" else ("vector", len(a)) if k == "v" else ("matrix", len(a), len(a[0]))


def mmap(f, v):
    k, a = v
    return (k, f(a)) if k == "s" else (k, [f(c) for c in a]) if k == "v" else (k, [[f(c) for c in r] for r in a])


def mzip(f, v, w):
    k, a = v
    b = w[1]
    if k == "s":
        return k, f(a, b)
    if k == "v":
        return k, [f(c, d) for c, d in zip(a, b)]
    return k, [[f(c, d) for c, d in zip(r, s)] for r, s in zip(a, b)]


# ------------------------------------------------------------------ leaves
def rf(p):
    return RF(gen.pd(p))


def leaf_model(n):
    if n["k"] == "s":
        return "s", rf(n["p"])
    if n["k"] == "v":
        return "v", [rf(p) for p in n["p"]]
    return "m", [[rf(p) for p in r] for r in n["p"]]


def leaf_value(n, form=None):
    form = form or n["form"]
    if n["k"] == "s":
        e = gen.psym(n["p"])
        if form == "fn":
            return ScalarFunction(e)
        if form == "int" and e.is_Integer:
            return int(e)
        return e
    if n["k"] == "v":
        e = [gen.psym(p) for p in n["p"]]
        e = [int(c) if c.is_Integer and form == "list" else c for c in e]
        return VectorFunction(tuple(e)) if form == "fn" else list(e) if form == "list" else tuple(ScalarFunction(c) for c in e) if form == "fns" else tuple(e)
    e = [[gen.psym(p) for p in r] for r in n["p"]]
    if form == "fn":
        return MatrixFunction(tuple(tuple(r) for r in e))
    if form == "matrix":
        return sympy.Matrix(e)
    return e if form == "list" else tuple(tuple(r) for r in e)


def const(n):
    ps = [n["p"]] if n["k"] == "s" else n["p"] if n["k"] == "v" else [p for r in n["p"] for p in r]
    return not any(any(e) for p in ps for e, _ in p)


# ------------------------------------------------------------------ comparison
def same(got, want, ctx, what):
    """got (symfem function or sympy value) has exactly the model value want."""
    f = got if isinstance(got, AnyFunction) else parse_function_input(got)
    sh, fl = num.shape_and_flat(f)
    check(sh == mshape(want), f"{what} is a {sh}, not a {mshape(want)}")
    kind = {"s": f.is_scalar, "v": f.is_vector, "m": f.is_matrix}[want[0]]
    check(kind and [f.is_scalar, f.is_vector, f.is_matrix].count(True) == 1, f"{what}: type flags")
    if want[0] != "s":
        check(tuple(f.shape) == sh[1:], f"{what}: shape is {f.shape}")
    done = 0
    for p in POINTS:
        try:
            w = [c.at(p) for c in mflat(want)]
        except Undefined:
            continue
        done += 1
        sub = {v: num.R(c) for v, c in zip(X, p)}
        for e, c in zip(fl, w):
            v = e.subs(sub, simultaneous=True)
            ctx.count()
            check(v.is_Rational and geo.F(v) == c, f"{what} is {e}, which is {v} at {p}, not {c}")
    if not done:
        ctx.label("no point off the poles")


def snap(v):
    if isinstance(v, AnyFunction):
        s = v.as_sympy()
        return (type(v).__name__, str(s), [str(c) for c in num.shape_and_flat(s)[1]])
    return (type(v).__name__, str(v))


OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "matmul": operator.matmul}


def model_op(op, a, b):
    if op == "add":
        return mzip(lambda c, d: c + d, a, b)
    if op == "sub":
        return mzip(lambda c, d: c - d, a, b)
    if op == "mul":
        return mmap(lambda c: c * b[1], a) if b[0] == "s" else mmap(lambda c: a[1] * c, b)
    if op == "truediv":
        return mmap(lambda c: c / b[1], a)
    if op == "dot":
        out = RF.const(0)
        for c, d in zip(mflat(a), mflat(b)):
            out = out + c * d
        return "s", out
    if op == "cross":
        u, v = a[1], b[1]
        if len(u) == 2:
            return "s", u[0] * v[1] - u[1] * v[0]
        return "v", [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    if op == "matmul":
        A = a[1] if a[0] == "m" else [a[1]]
        B = b[1] if b[0] == "m" else [[c] for c in b[1]]
        C = []
        for r in A:
            row = []
            for j in range(len(B[0])):
                t = RF.const(0)
                for k in range(len(B)):
                    t = t + r[k] * B[k][j]
                row.append(t)
            C.append(row)
        if a[0] == "v":
            return "v", C[0]
        if b[0] == "v":
            return "v", [r[0] for r in C]
        return "m", C
    raise core.HarnessError(op)


def apply_op(op, a, b):
    if op in OPS:
        return OPS[op](a, b)
    return getattr(a, op)(b)


def binary(case, ctx):
    op, na, nb = case["op"], case["a"], case["b"]
    a, b = leaf_value(na), leaf_value(nb)
    if not isinstance(a, AnyFunction) and (not isinstance(b, AnyFunction) or op in ("dot", "cross")):
        a = leaf_value(na, "fn")
    ctx.label(f"{op}:{na['k']},{nb['k']}", f"forms:{type(a).__name__},{type(b).__name__}")
    if const(na) and const(nb):
        ctx.trivial("constant operands")
    ma, mb = leaf_model(na), leaf_model(nb)
    try:
        want = model_op(op, ma, mb)
    except Undefined:
        ctx.trivial("division by zero")
        return
    s = snap(a), snap(b)
    got = apply_op(op, a, b)
    same(got, want, ctx, f"{a} {op} {b}")
    check((snap(a), snap(b)) == s, f"{op} modified an operand")
    again = apply_op(op, a, b)
    same(again, want, ctx, f"{a} {op} {b} (again)")
    # in-place form gives a new value and leaves the others alone
    if op in ("add", "sub", "mul", "truediv") and isinstance(a, AnyFunction):
        keep = c = a
        c = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "truediv": operator.itruediv}[op](c, b)
        same(c, want, ctx, f"{a} {op}= {b}")
        check(snap(keep) == s[0], f"{op}= modified the object that other names refer to")


def power(case, ctx):
    n, k = case["a"], case["k"]
    a = leaf_value(n, "fn")
    m = leaf_model(n)
    ctx.label(f"pow:{n['k']}", f"k:{k}")
    if const(n):
        ctx.trivial("constant")
    try:
        want = mmap(lambda c: c**k, m)
    except Undefined:
        ctx.trivial("division by zero")
        return
    s = snap(a)
    e = [k, sympy.Integer(k), ScalarFunction(k)][case["as"]]
    same(a**e, want, ctx, f"({a}) ** {k}")
    check(snap(a) == s, "** modified its operand")
    same(-a, mmap(lambda c: -c, m), ctx, f"-({a})")


# ------------------------------------------------------------------ trees
def tree_model(n, depth=0):
    if "op" not in n:
        return leaf_model(n)
    op = n["op"]
    if op in ("neg", "diff", "pow", "subs", "grad", "div", "curl", "T", "get", "det"):
        return unary_model(op, n, tree_model(n["a"]))
    return model_op(op, tree_model(n["a"]), tree_model(n["b"]))


def unary_model(op, n, a):
    if op == "neg":
        return mmap(lambda c: -c, a)
    if op == "diff":
        return mmap(lambda c: c.diff(n["i"]), a)
    if op == "pow":
        return mmap(lambda c: c ** n["i"], a)
    if op == "subs":
        s = {i: rf(p) for i, p in enumerate(n["with"])}
        return mmap(lambda c: c.compose(s), a)
    if op == "grad":
        return "v", [a[1].diff(i) for i in range(n["i"])]
    if op == "div":
        out = RF.const(0)
        for i, c in enumerate(a[1]):
            out = out + c.diff(i)
        return "s", out
    if op == "curl":
        u = a[1]
        return "v", [u[2].diff(1) - u[1].diff(2), u[0].diff(2) - u[2].diff(0), u[1].diff(0) - u[0].diff(1)]
    if op == "T":
        return "m", [[r[j] for r in a[1]] for j in range(len(a[1][0]))]
    if op == "get":
        if a[0] == "v":
            return "s", a[1][n["i"] % len(a[1])]
        return "v", a[1][n["i"] % len(a[1])]
    if op == "det":
        return "s", rdet(a[1])
    raise core.HarnessError(op)


def rdet(m):
    if len(m) == 1:
        return m[0][0]
    out = RF.const(0)
    for j in range(len(m)):
        minor = [[r[k] for k in range(len(m)) if k != j] for r in m[1:]]
        t = m[0][j] * rdet(minor)
        out = out + t if j % 2 == 0 else out - t
    return out


def as_fn(v):
    return v if isinstance(v, AnyFunction) else parse_function_input(v)


def tree_value(n):
    if "op" not in n:
        return leaf_value(n)
    op = n["op"]
    a = tree_value(n["a"])
    if op in ("neg", "diff", "pow", "subs", "grad", "div", "curl", "T", "get", "det"):
        a = as_fn(a)
        if op == "neg":
            return -a
        if op == "diff":
            return a.diff(X[n["i"]])
        if op == "pow":
            return a ** n["i"]
        if op == "subs":
            return a.subs(X, [gen.psym(p) for p in n["with"]])
        if op == "grad":
            return a.grad(n["i"])
        if op == "T":
            return a.transpose()
        if op == "get":
            return a[n["i"] % (len(a) if a.is_vector else a.shape[0])]
        return getattr(a, op)()
    b = tree_value(n["b"])
    fa, fb = isinstance(a, AnyFunction), isinstance(b, AnyFunction)
    if op in ("dot", "cross"):
        a = as_fn(a)
    elif op == "matmul" or (not fa and not fb):
        a, b = as_fn(a), as_fn(b)
    elif op in ("mul", "truediv") and isinstance(a, (list, tuple, sympy.MatrixBase)):
        a = as_fn(a)
    elif op in ("mul", "truediv") and isinstance(b, (list, tuple, sympy.MatrixBase)):
        b = as_fn(b)
    elif isinstance(a, sympy.MatrixBase):
        a = as_fn(a)
    return apply_op(op, a, b)


def count_ops(n):
    return 0 if "op" not in n else 1 + count_ops(n["a"]) + (count_ops(n["b"]) if "b" in n else 0)


def program(case, ctx):
    t = case["tree"]
    k = count_ops(t)
    ctx.label(f"operations:{k}")
    if k < 2:
        ctx.trivial("fewer than two operations")
    try:
        want = tree_model(t)
    except Undefined:
        ctx.trivial("division by zero")
        return
    if max(c.size() for c in mflat(want)) > 400:
        ctx.trivial("too large")
        return
    same(tree_value(t), want, ctx, "the program's value")


# ------------------------------------------------------------------ calculus, substitution, integrals
def calculus(case, ctx):
    n = case["a"]
    a, m = leaf_value(n, "fn"), leaf_model(n)
    ctx.label(f"kind:{n['k']}")
    if const(n):
        ctx.trivial("constant")
    s = snap(a)
    for i in range(3):
        same(a.diff(X[i]), mmap(lambda c: c.diff(i), m), ctx, f"d/d{X[i]} of {a}")
    if n["k"] == "s":
        f = m[1]
        for d in (1, 2, 3):
            same(a.grad(d), ("v", [f.diff(i) for i in range(d)]), ctx, f"grad({d}) of {a}")
            same(a.jacobian(d), ("m", [[f.diff(i).diff(j) for j in range(d)] for i in range(d)]), ctx, f"jacobian({d}) of {a}")
        i, j = case["ij"]
        same(a.jacobian_component((i, j)), ("s", f.diff(i).diff(j)), ctx, f"jacobian_component({i}, {j}) of {a}")
        for dim in (2, 3):
            d = [geo.F(c) for c in case["dir"]][:dim]
            w = RF.const(0)
            for k in range(dim):
                w = w + f.diff(k) * RF.const(d[k])
            for dd in (num.RP(d), list(num.RP(d)), VectorFunction(num.RP(d))):
                same(a.directional_derivative(dd), ("s", w), ctx, f"derivative of {a} in direction {d}")
        for name in ("div", "curl", "det", "transpose"):
            refuses(getattr(a, name, None), f"{name} of a scalar function")
        # the norm is the absolute value
        for p in POINTS:
            v = float(a.norm().subs(X, num.RP(p)))
            check(abs(v - abs(float(f.at(p)))) <= 1e-9 * max(1, abs(v)), f"norm of {a} at {p}")
    elif n["k"] == "v":
        u = m[1]
        w = RF.const(0)
        for i, c in enumerate(u):
            w = w + c.diff(i)
        same(a.div(), ("s", w), ctx, f"div of {a}")
        if len(u) == 3:
            same(a.curl(), unary_model("curl", {}, m), ctx, f"curl of {a}")
            same(a.curl().div(), ("s", RF.const(0)), ctx, f"div curl of {a}")
        else:
            refuses(a.curl, "curl of a vector with two components")
        for p in POINTS:
            v = float(a.norm().subs(X, num.RP(p)))
            e = float(sum(c.at(p) ** 2 for c in u)) ** 0.5
            check(abs(v - e) <= 1e-9 * max(1, e), f"norm of {a} at {p} is {v}, not {e}")
        refuses(lambda: a.grad(2), "grad of a vector function")
        refuses(lambda: a.grad(), "grad of a vector function")
        check(len(a) == len(u) and a.shape == (len(u),), "length of a vector function")
        for i in range(-len(u), len(u)):
            same(a[i], ("s", u[i]), ctx, f"component {i} of {a}")
        refuses(lambda: a[len(u)], "a component after the last one")
        k = case["ij"][0]
        if len(u[k:]):
            same(a[k:], ("v", u[k:]), ctx, f"components {k} onwards of {a}")
        for c, e in zip([q for q in a], u):
            same(c, ("s", e), ctx, "iterating over a vector function")
        check(len(list(a)) == len(u), "iterating over a vector function")
    else:
        M = m[1]
        r, c = len(M), len(M[0])
        check(a.shape == (r, c), f"shape of {a}")
        same(a.transpose(), unary_model("T", {}, m), ctx, f"transpose of {a}")
        for i in range(r):
            same(a.row(i), ("v", M[i]), ctx, f"row {i} of {a}")
            same(a[i], ("v", M[i]), ctx, f"row {i} of {a}")
            for j in range(c):
                same(a[i, j], ("s", M[i][j]), ctx, f"entry {i}, {j} of {a}")
        for j in range(c):
            same(a.col(j), ("v", [q[j] for q in M]), ctx, f"column {j} of {a}")
        if r == c:
            same(a.det(), ("s", rdet(M)), ctx, f"determinant of {a}")
        elif (r, c) == (3, 2):
            u, v = [q[0] for q in M], [q[1] for q in M]
            w = model_op("cross", ("v", u), ("v", v))[1]
            for p in POINTS:
                x1 = float(a.det().subs(X, num.RP(p)))
                e = float(sum(k.at(p) ** 2 for k in w)) ** 0.5
                check(abs(x1 - e) <= 1e-9 * max(1, e), f"det of the 3x2 matrix {a} at {p}")
        else:
            refuses(a.det, f"det of a {r}x{c} matrix")
        for name in ("div", "curl", "grad"):
            refuses(getattr(a, name, None), f"{name} of a matrix function")
    check(snap(a) == s, "calculus modified the function")


def refuses(f, what):
    try:
        v = f()
    except Exception:
        return
    raise core.Violation(f"{what} gives a value ({v!r}) instead of raising")


def substitution(case, ctx):
    n = case["a"]
    a, m = leaf_value(n, "fn"), leaf_model(n)
    s = snap(a)
    mode = case["mode"]
    ctx.label(f"kind:{n['k']}", f"mode:{mode}")
    if const(n):
        ctx.trivial("constant")
    w = [rf(p) for p in case["with"]]
    e = [gen.psym(p) for p in case["with"]]
    if mode == "one":
        i = case["i"]
        for v in (e[i], ScalarFunction(e[i])):
            same(a.subs(X[i], v), mmap(lambda c: c.compose({i: w[i]}), m), ctx, f"{a} with {X[i]} = {v}")
    elif mode == "point":
        p = [geo.F(c) for c in case["pt"]]
        want = mmap(lambda c: RF.const(c.at(p)), m)
        vals = num.RP(p)
        for v in (vals, list(vals), VectorFunction(vals), tuple(int(c) if c.is_Integer else c for c in vals)):
            same(a.subs(X, v), want, ctx, f"{a} at {v}")
        f = [float(c) for c in p]
        g = a.subs(X, tuple(sympy.Float(c) for c in f))
        for c, d in zip(num.shape_and_flat(g)[1], mflat(want)):
            check(abs(float(c) - float(d.at(p))) <= 1e-9 * max(1, abs(float(d.at(p)))), f"{a} at the floating point {f} is {c}")
        if n["k"] == "s":
            check(abs(float(a.subs(X, vals)) - float(want[1].at(p))) <= 1e-9 * max(1, abs(float(want[1].at(p)))), "float of a constant function")
    elif mode == "perm":
        order = case["perm"]
        vs = tuple(X[i] for i in order)
        want = mmap(lambda c: c.compose({i: w[k] for k, i in enumerate(order)}), m)
        for v in (tuple(e), list(e), VectorFunction(tuple(e))):
            same(a.subs(vs, v), want, ctx, f"{a} with {vs} = {v}")
        same(a.subs(list(vs[:2]), e[:2]), mmap(lambda c: c.compose({order[0]: w[0], order[1]: w[1]}), m), ctx, f"{a} with {vs[:2]} = {e[:2]}")
    else:  # swap the variables: only a simultaneous substitution does it
        order = case["perm"]
        same(a.subs(X, tuple(X[i] for i in order)), mmap(lambda c: c.compose({k: RF.var(i) for k, i in enumerate(order)}), m), ctx, f"{a} with {X} = permuted {order}")
    refuses(lambda: a.subs(X[0], (1, 2)), "substituting two values into one variable")
    check(snap(a) == s, "subs modified the function")


def integrals(case, ctx):
    cell = case["cell"]
    aff = gen.aff_of(case["map"])
    vs = aff.verts(cell)
    g, t = len(vs[0]), geo.TDIM[cell]
    ref = create_reference(cell, tuple(num.RP(v) for v in vs))
    p1, p2 = gen.pd(case["p1"]), gen.pd(case["p2"])
    p1 = {k: v for k, v in p1.items() if not any(k[g:])}
    p2 = {k: v for k, v in p2.items() if not any(k[g:])}
    lins = num.affine_polys(aff)
    ax = [tuple(a - b for a, b in zip(vs[i], vs[0])) for i in geo.AXES[cell]]
    G = geo.det([[sum((a * b for a, b in zip(u, v)), geo.Fr(0)) for v in ax] for u in ax])
    ctx.label(f"cell:{cell}", f"gdim:{g}")
    if not any(any(k) for k in list(p1) + list(p2)):
        ctx.trivial("constant")

    def model(p):
        return num.pintegral_ref(num.pcompose(p, lins), cell)

    def val(p, **kw):
        f = ScalarFunction(num.pto_sympy(p, kw.get("vars", X)))
        s = snap(f)
        v = f.integral(ref, **kw)
        check(snap(f) == s, "integral modified the function")
        return v

    def agree(v, want, what):
        check(isinstance(v, AnyFunction) and v.is_scalar, f"{what} is a {type(v).__name__}")
        e = v.as_sympy()
        ctx.count()
        d = e**2 - num.R(want) ** 2 * num.R(G)
        check(sympy.simplify(d) == 0 and float(e) * float(want) >= 0, f"{what} over {cell} {vs} is {e}, not {want} * sqrt({G})")

    i1, i2 = val(p1), val(p2)
    agree(i1, model(p1), f"integral of {p1}")
    agree(i2, model(p2), f"integral of {p2}")
    c = geo.F(case["c"])
    comb = num.padd(p1, p2, c)
    agree(val(comb), model(p1) + c * model(p2), f"integral of p1 + {c} p2")
    v2 = sympy.symbols("a b c")
    agree(val(p1, vars=v2), model(p1), "integral with other variables")
    agree(val(p1, dummy_vars=sympy.symbols("u v w")), model(p1), "integral with other dummy variables")
    if cell != "point" and g == t:
        lim = ref.integration_limits(X)
        f = ScalarFunction(num.pto_sympy(num.pcompose(p1, lins)))
        agree(f.integrate(*lim) * sympy.sqrt(num.R(G)), model(p1), "integrate over the limits")


def floats(case, ctx):
    n = case["a"]
    a, m = leaf_value(n, "fn"), leaf_model(n)
    s = snap(a)
    f = a.with_floats()
    ctx.label(f"kind:{n['k']}")
    sh, fl = num.shape_and_flat(f)
    check(sh == mshape(m) and type(f) is type(a), f"with_floats of {a} is a {type(f).__name__}")
    for p in POINTS:
        for e, c in zip(fl, mflat(m)):
            v, w = float(e.subs(dict(zip(X, num.RP(p))))), float(c.at(p))
            ctx.count()
            check(abs(v - w) <= 1e-9 * max(1, abs(w)), f"with_floats of {a} is {f}")
    for e in fl:
        for term, co in sympy.expand(e).as_coefficients_dict().items():
            check(not (co.is_Rational and not co.is_Integer), f"with_floats of {a} has the coefficient {co}")
    check(snap(a) == s, "with_floats modified the function")


def degrees(case, ctx):
    """maximum_degree is the order of the smallest Lagrange space of the cell that contains the function."""
    cell = case["cell"]
    ref = create_reference(cell)
    comps, want = [], 0
    for c in case["comps"]:
        f = num.pto_sympy({}) * 0
        m = {}
        for term in c:  # a sum of products, not expanded
            e, q = num.R(1), {(0, 0, 0): geo.F(1)}
            for p in term:
                e, q = e * gen.psym(p), num.pmul(q, gen.pd(p))
            f, m = f + e, num.padd(m, q)
        for ex, co in m.items():
            if co != 0:
                want = max(want, max(ex) if cell in ("quadrilateral", "hexahedron") else max(ex[0] + ex[1], ex[2]) if cell == "prism" else sum(ex))
        comps.append(f)
    k = case["kind"]
    f = ScalarFunction(comps[0]) if k == "s" else VectorFunction(comps) if k == "v" else MatrixFunction([comps[:2], comps[2:]])
    s = snap(f)
    got = f.maximum_degree(ref)
    ctx.label(f"kind:{k}", f"cell:{cell}", f"degree:{want}")
    ctx.count()
    check(got == want or (want == 0 and got <= 0), f"the maximum degree of {f} on a {cell} is {got}, should be {want}")
    check(snap(f) == s, "maximum_degree modified the function")


def equality(case, ctx):
    n = case["a"]
    a, m = leaf_value(n, "fn"), leaf_model(n)
    ctx.label(f"kind:{n['k']}", f"form:{case['form']}")
    # a rewritten form of the same function
    k = case["k"]

    def rewrite(e):
        if k == 0:
            return sympy.factor(e)
        if k == 1:
            return sympy.horner(e) if e.free_symbols else e
        if k == 2:
            return (e * (X[0] + 2) - e * X[0]) / 2
        return e + (X[0] - X[1]) ** 2 - X[0] ** 2 + 2 * X[0] * X[1] - X[1] ** 2

    e = [rewrite(c) for c in num.shape_and_flat(a)[1]]
    d = [geo.Fr(0)] * len(e)
    j = case["where"] % len(e)

    def build(es):
        if n["k"] == "s":
            return ScalarFunction(es[0]) if case["form"] == "fn" else es[0]
        if n["k"] == "v":
            return VectorFunction(tuple(es)) if case["form"] == "fn" else tuple(es) if case["form"] == "tuple" else list(es)
        c = a.shape[1]
        rows = [es[i : i + c] for i in range(0, len(es), c)]
        return MatrixFunction(rows) if case["form"] == "fn" else sympy.Matrix(rows) if case["form"] == "tuple" else rows

    b = build(e)
    s = snap(a)
    ctx.count(6)
    check((a == b) is True and (a != b) is False, f"{a} == {b} is False")
    if case["form"] == "fn":
        check((b == a) is True and (b != a) is False, f"{b} == {a} is False")
    delta = gen.psym(case["delta"])
    e[j] = e[j] + delta
    c = build(e)
    check((a == c) is False and (a != c) is True, f"{a} == {c} is True")
    if n["k"] == "v":
        longer = build(num.shape_and_flat(a)[1] + [delta])
        check((a == longer) is False and a != longer, f"{a} == {longer} is True")
        shorter = build(num.shape_and_flat(a)[1][:-1])
        if len(a) > 1:
            check((a == shorter) is False and a != shorter, f"{a} == {shorter} is True")
        check(not (a == a[0]) and not (a[0] == a), "a vector equals a scalar")
    if n["k"] == "m":
        t = a.transpose()
        eq = all(m[1][i][q].same(m[1][q][i]) for i in range(len(m[1])) for q in range(len(m[1][0]))) if a.shape[0] == a.shape[1] else False
        check((a == t) is eq, f"{a} == {t} is {not eq}")
        check(not (a == a[0]) and not (a[0] == a), "a matrix equals a vector")
    check(snap(a) == s, "comparison modified a function")
    ctx.labels["delta"] += 0 if all(x == 0 for x in d) else 1


def ordering(case, ctx):
    a, b = geo.F(case["x"]), geo.F(case["y"])
    f = ScalarFunction(num.R(a))
    for other in (num.R(b), ScalarFunction(num.R(b)), int(b) if b.denominator == 1 else num.R(b)):
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            ctx.count()
            check(bool(op(f, other)) == op(a, b), f"{op.__name__}({a}, {b})")
    check(float(f) == float(a), "float of a constant")


def parsing(case, ctx):
    n = case["a"]
    m = leaf_model(n)
    forms = {"s": ["fn", "sym", "int"], "v": ["fn", "list", "tuple", "fns"], "m": ["fn", "matrix", "list", "tuple"]}[n["k"]]
    vals = [leaf_value(n, f) for f in forms]
    ctx.label(f"kind:{n['k']}")
    for f, v in zip(forms, vals):
        s = snap(v)
        got = parse_function_input(v)
        check(isinstance(got, {"s": ScalarFunction, "v": VectorFunction, "m": MatrixFunction}[n["k"]]), f"parse_function_input of a {f} is a {type(got).__name__}")
        same(got, m, ctx, f"parse_function_input({v})")
        check(snap(v) == s, "parse_function_input modified its argument")
    for c in (list, tuple):
        got = parse_function_list_input(c(vals))
        check(len(got) == len(vals), "parse_function_list_input changes the number of functions")
        for g in got:
            same(g, m, ctx, "parse_function_list_input")
    for bad in ("x", None, {1: 2}):
        refuses(lambda: parse_function_input(bad), f"parse_function_input({bad!r})")
    if n["k"] == "m" and len(n["p"]) > 1:
        refuses(lambda: MatrixFunction([[1, 2], [3]]), "a matrix with rows of different lengths")
        refuses(lambda: VectorFunction([VectorFunction((1, 2)), 1]), "a vector with a vector entry")
        refuses(lambda: MatrixFunction([[VectorFunction((1, 2)), 1]]), "a matrix with a vector entry")


def illtyped(case, ctx):
    """Combinations that mean nothing must raise."""
    op, na, nb = case["op"], case["a"], case["b"]
    a, b = leaf_value(na), leaf_value(nb)
    if not isinstance(a, AnyFunction) and (not isinstance(b, AnyFunction) or op in ("dot", "cross")):
        a = leaf_value(na, "fn")
    sa, sb = mshape(leaf_model(na)), mshape(leaf_model(nb))
    ka, kb = sa[0], sb[0]
    if op in ("add", "sub"):
        ok = sa == sb
    elif op == "mul":
        ok = "scalar" in (ka, kb)
    elif op == "truediv":
        ok = kb == "scalar"
    elif op == "matmul":
        ok = (ka, kb) in (("matrix", "matrix"), ("matrix", "vector"), ("vector", "matrix")) and sa[-1] == sb[1]
    elif op == "dot":
        ok = sa == sb
    else:
        ok = sa == sb and ka == "vector" and sa[1] in (2, 3)
    if ok:
        ctx.trivial("well typed")
        return
    # vectors times plain sequences are repeated sequences in Python, not functions
    ctx.label(f"{op}:{sa},{sb}")
    ctx.count()
    refuses(lambda: apply_op(op, a, b), f"{type(a).__name__} {sa} {op} {type(b).__name__} {sb}")


# ------------------------------------------------------------------ strategies
def poly(deg=3, terms=3):
    return gen.polynomial(3, deg, terms)


@st.composite
def leaf(draw, kind=None, deg=2, terms=3, n=None, shape=None, forms=None):
    k = kind or draw(st.sampled_from(["s", "v", "m"]))
    if k == "s":
        if draw(st.integers(0, 4)) == 0:
            p = [[[0, 0, 0], draw(st.sampled_from([1, 2, -1, 3, "1/2"]))]]
        else:
            p = draw(poly(deg, terms))
        return {"k": "s", "p": p, "form": draw(st.sampled_from(forms or ["fn", "fn", "sym", "int"]))}
    if k == "v":
        d = n or draw(st.sampled_from([2, 3, 1]))
        return {"k": "v", "p": [draw(poly(deg, terms)) for _ in range(d)], "form": draw(st.sampled_from(forms or ["fn", "fn", "list", "tuple", "fns"]))}
    r, c = shape or draw(st.sampled_from([(2, 2), (3, 3), (2, 3), (3, 2), (1, 2)]))
    return {"k": "m", "p": [[draw(poly(deg, 2)) for _ in range(c)] for _ in range(r)], "form": draw(st.sampled_from(forms or ["fn", "fn", "list", "tuple", "matrix"]))}


@st.composite
def binaries(draw, op):
    fn = ["fn"]
    if op in ("add", "sub"):
        a = draw(leaf())
        if a["k"] == "s":
            b = draw(leaf("s"))
        elif a["k"] == "v":
            b = draw(leaf("v", n=len(a["p"])))
        else:
            b = draw(leaf("m", shape=(len(a["p"]), len(a["p"][0]))))
            if a["form"] == "matrix":
                a["form"] = "fn"  # sympy's own matrices refuse on the left
    elif op == "mul":
        a, b = draw(leaf("s")), draw(leaf())
        if b["k"] != "s":
            b["form"] = "fn"
        if draw(st.booleans()):
            a, b = b, a
    elif op == "truediv":
        a, b = draw(leaf()), draw(leaf("s"))
        if a["k"] != "s":
            a["form"] = "fn"
    elif op in ("dot", "cross"):
        k = draw(st.sampled_from(["v", "m", "s"])) if op == "dot" else "v"
        if k == "v":
            d = draw(st.sampled_from([2, 3]))
            a, b = draw(leaf("v", n=d, forms=fn)), draw(leaf("v", n=d))
        elif k == "s":
            a, b = draw(leaf("s", forms=fn)), draw(leaf("s"))
        else:
            s = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3)]))
            a, b = draw(leaf("m", shape=s, forms=fn)), draw(leaf("m", shape=s))
    else:
        i, j, k = [draw(st.sampled_from([2, 3, 1])) for _ in range(3)]
        w = draw(st.sampled_from(["mm", "mv", "vm"]))
        a = draw(leaf("v", n=j, forms=fn) if w == "vm" else leaf("m", shape=(i, j), forms=fn))
        b = draw(leaf("v", n=j, forms=fn) if w == "mv" else leaf("m", shape=(j, k), forms=fn))
    return {"op": op, "a": a, "b": b}


@st.composite
def trees(draw, kind, depth):
    """kind: 's', ('v', n), ('m', r, c)"""
    k = kind[0]
    if depth == 0 or draw(st.integers(0, 6)) == 0:
        if k == "s":
            return draw(leaf("s", deg=2, terms=2))
        if k == "v":
            return draw(leaf("v", deg=2, terms=2, n=kind[1]))
        return draw(leaf("m", deg=1, terms=2, shape=kind[1:]))
    sub = lambda kk: draw(trees(kk, depth - 1))  # noqa: E731
    ops = ["add", "sub", "add", "sub", "mul", "lmul", "truediv", "neg", "diff", "subs"]
    if k == "s":
        ops += ["dot", "dotm", "cross", "div", "pow", "get", "det"]
    elif k == "v":
        ops += ["grad", "mv", "vm", "getm"] + (["curl", "cross"] if kind[1] == 3 else [])
    else:
        ops += ["mm", "T"]
    op = draw(st.sampled_from(ops))
    d = draw(st.sampled_from([2, 3]))
    if op in ("add", "sub"):
        return {"op": op, "a": sub(kind), "b": sub(kind)}
    if op == "mul":
        return {"op": "mul", "a": sub(kind), "b": sub(("s",))}
    if op == "lmul":
        return {"op": "mul", "a": sub(("s",)), "b": sub(kind)}
    if op == "truediv":
        return {"op": op, "a": sub(kind), "b": draw(leaf("s", deg=1, terms=2))}
    if op == "neg":
        return {"op": op, "a": sub(kind)}
    if op == "diff":
        return {"op": op, "a": sub(kind), "i": draw(st.integers(0, 2))}
    if op == "subs":
        return {"op": op, "a": sub(kind), "with": [draw(poly(1, 2)) for _ in range(3)]}
    if op == "pow":
        return {"op": op, "a": sub(kind), "i": draw(st.sampled_from([2, 3, 0, 1, -1]))}
    if op == "dot":
        return {"op": "dot", "a": sub(("v", d)), "b": sub(("v", d))}
    if op == "dotm":
        return {"op": "dot", "a": sub(("m", 2, d)), "b": sub(("m", 2, d))}
    if op == "cross":
        n = 2 if k == "s" else 3
        return {"op": "cross", "a": sub(("v", n)), "b": sub(("v", n))}
    if op == "div":
        return {"op": op, "a": sub(("v", d))}
    if op == "curl":
        return {"op": op, "a": sub(("v", 3))}
    if op == "get":
        return {"op": "get", "a": sub(("v", d)), "i": draw(st.integers(0, 2))}
    if op == "getm":
        return {"op": "get", "a": sub(("m", 2, kind[1])), "i": draw(st.integers(0, 1))}
    if op == "det":
        return {"op": "det", "a": sub(("m", 2, 2))}
    if op == "grad":
        return {"op": op, "a": sub(("s",)), "i": kind[1]}
    if op == "mv":
        return {"op": "matmul", "a": sub(("m", kind[1], d)), "b": sub(("v", d))}
    if op == "vm":
        return {"op": "matmul", "a": sub(("v", d)), "b": sub(("m", d, kind[1]))}
    if op == "mm":
        return {"op": "matmul", "a": sub(("m", kind[1], d)), "b": sub(("m", d, kind[2]))}
    return {"op": "T", "a": sub(("m", kind[2], kind[1]))}


CELLS = {"interval": (1, 2, 3), "triangle": (2, 3), "quadrilateral": (2, 3), "tetrahedron": (3,), "hexahedron": (3,), "prism": (3,), "pyramid": (3,)}


@st.composite
def integral_cases(draw, cell):
    g = draw(st.sampled_from(CELLS[cell]))
    deg = 2 if geo.TDIM[cell] == 3 else 3
    return {"cell": cell, "map": draw(gen.affine(geo.TDIM[cell], g)), "p1": draw(gen.polynomial(g, deg, 3)), "p2": draw(gen.polynomial(g, deg, 2)), "c": draw(gen.nonzero())}


@st.composite
def ill(draw, op):
    return {"op": op, "a": draw(leaf(deg=1, terms=1)), "b": draw(leaf(deg=1, terms=1))}


@st.composite
def degree_cases(draw, cell, kind):
    t = geo.TDIM[cell]
    term = st.lists(gen.polynomial(t, 3, 2), min_size=1, max_size=2)
    n = {"s": 1, "v": draw(st.integers(2, 3)), "m": 4}[kind]
    return {"cell": cell, "kind": kind, "comps": [draw(st.lists(term, min_size=0, max_size=2)) for _ in range(n)]}


def make_groups(tier, seed):
    k = 1 if tier == "quick" else 30
    out = []
    for op in ("add", "sub", "mul", "truediv", "matmul", "dot", "cross"):
        out.append(Group(f"op/{op}", binary, binaries(op), 90 * k, 3))
        out.append(Group(f"illtyped/{op}", illtyped, ill(op), 60 * k, 1))
    fd = st.fixed_dictionaries
    for kind in "svm":
        lf = leaf(kind, deg=3)
        out.append(Group(f"pow/{kind}", power, fd({"a": lf, "k": st.sampled_from([2, 0, 1, 3, -1, -2]), "as": st.integers(0, 2)}), 25 * k, 2))
        out.append(Group(f"calculus/{kind}", calculus, fd({"a": lf, "ij": st.lists(st.integers(0, 2), min_size=2, max_size=2), "dir": st.lists(gen.rats(), min_size=3, max_size=3)}), 30 * k, 4))
        for mode in ("one", "point", "perm", "swap"):
            out.append(Group(f"subs/{mode}/{kind}", substitution, fd({
                "a": lf, "mode": st.just(mode), "i": st.integers(0, 2), "with": st.lists(poly(2, 2), min_size=3, max_size=3),
                "pt": st.lists(gen.rats(), min_size=3, max_size=3), "perm": st.permutations(range(3)).map(list)}), 25 * k, 3))  # fmt: skip
        out.append(Group(f"floats/{kind}", floats, fd({"a": lf}), 30 * k, 2))
        forms = st.sampled_from(["fn", "tuple", "list"])
        out.append(Group(f"equality/{kind}", equality, fd({"a": lf, "k": st.integers(0, 3), "form": forms, "where": st.integers(0, 8), "delta": poly(1, 1)}), 30 * k, 4))
        out.append(Group(f"parsing/{kind}", parsing, fd({"a": leaf(kind, deg=2)}), 12 * k, 1))
    for kind in (("s",), ("v", 2), ("v", 3), ("m", 2, 2), ("m", 3, 2)):
        name = "".join(str(i) for i in kind)
        for d in (2, 3):
            out.append(Group(f"program/{name}/depth{d}", program, fd({"tree": trees(kind, d)}), 45 * k, 6))
    for c in CELLS:
        out.append(Group(f"integral/{c}", integrals, integral_cases(c), 14 * k, 8))
        if c != "pyramid":
            for kind in "svm":
                out.append(Group(f"degree/{c}/{kind}", degrees, degree_cases(c, kind), 10 * k, 1))
    out.append(Group("ordering", ordering, fd({"x": gen.rats(), "y": gen.rats()}), 30 * k, 1))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C08", make_groups, RULE))

"""C12: quadrature rules."""

import sys
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, gen, geo
from vlib.core import Group, check

import sympy

from symfem import quadrature

RULE = (
    "a case is a rule, a number of points and a random polynomial of degree up to the guaranteed one, on a "
    "random interval, or a request for an unsupported rule or size; non-trivial if the polynomial is not "
    "constant; a violation is a wrong integral, a wrong point set or weights, or an answer to an invalid request"
)
FN = {"equispaced": "equispaced", "lobatto": "lobatto", "gll": "lobatto", "radau": "radau", "legendre": "legendre"}
SIZES = {"equispaced": range(2, 15), "lobatto": range(2, 8), "radau": range(2, 4), "legendre": range(1, 4)}
DEGREE = {"equispaced": lambda n: 1, "lobatto": lambda n: 2 * n - 3, "radau": lambda n: 2 * n - 2, "legendre": lambda n: 2 * n - 1}


def value(e):
    e = sympy.sympify(e)
    check(e.is_number and e.is_real is not False, f"{e} is not a real number")
    return e.evalf(40)


def close(a, b):
    return abs(a - b) < sympy.Float(10) ** -30 * max(1, abs(a), abs(b))


def prop_rule(case, ctx):
    rule, n = case["rule"], case["n"]
    fam = FN[rule]
    ctx.label(f"{rule} {n}")
    out = quadrature.get_quadrature(rule, n) if case["get"] else getattr(quadrature, fam)(n)
    check(isinstance(out, tuple) and len(out) == 2, "not a pair of lists")
    P, W = out
    check(len(P) == n and len(W) == n, f"{rule}({n}) has {len(P)} points and {len(W)} weights")
    p, w = [value(i) for i in P], [value(i) for i in W]
    check(all(0 <= i <= 1 for i in p), f"{rule}({n}): a point outside [0, 1]")
    check(all(a < b for a, b in zip(p, p[1:])), f"{rule}({n}): points not distinct and increasing: {P}")
    check(close(sum(w), sympy.Integer(1)), f"{rule}({n}): weights sum to {sum(w)}")
    check(all(i > 0 for i in w), f"{rule}({n}): weight not positive")
    if fam in ("lobatto", "equispaced"):
        check(sympy.sympify(P[0]) == 0 and sympy.sympify(P[-1]) == 1, f"{rule}({n}) does not contain both endpoints: {P}")
    if fam == "radau":
        check(sympy.sympify(P[0]) == 0 and p[-1] < 1, f"{rule}({n}) does not contain exactly the left endpoint")
    if fam == "legendre":
        check(p[0] > 0 and p[-1] < 1, f"{rule}({n}) contains an endpoint")
    if fam != "radau":
        check(all(close(a + b, sympy.Integer(1)) for a, b in zip(p, p[::-1])), f"{rule}({n}): points are not symmetric")
        check(all(close(a, b) for a, b in zip(w, w[::-1])), f"{rule}({n}): weights are not symmetric")
    if fam == "equispaced":
        check(all(close(i, sympy.Rational(k, n - 1)) for k, i in enumerate(p)), f"{rule}({n}): points are not equally spaced: {P}")
    # a random polynomial of the guaranteed degree
    deg = DEGREE[fam](n)
    c = [geo.F(i) for i in case["c"]]
    c = [c[i % len(c)] for i in range(deg + 1)]
    if deg == 0 or not any(c[1:]):
        ctx.trivial("constant")
    want = sum((k / (i + 1) for i, k in enumerate(c)), Fr(0))
    got = sum(wi * sum(sympy.Rational(k.numerator, k.denominator) * pi**i for i, k in enumerate(c)) for pi, wi in zip(p, w))
    ctx.count()
    check(close(got, sympy.Rational(want.numerator, want.denominator)), f"{rule}({n}) integrates {[str(k) for k in c]} to {got}, not {want}")
    # the two ways to ask for it agree, and a second request is not affected by the first
    P[0] = 7
    W.append(1)
    P2, W2 = quadrature.get_quadrature(rule, n)
    check([value(i) for i in P2] == p and [value(i) for i in W2] == w, f"{rule}({n}) changed after its lists were used")


def prop_bad(case, ctx):
    rule, n = case["rule"], case["n"]
    if rule in FN and n in SIZES[FN[rule]]:
        ctx.trivial("valid request")
        return
    if rule in FN and FN[rule] == "equispaced" and n > 1:
        ctx.trivial("valid request")
        return
    ctx.label("unknown rule" if rule not in FN else "unsupported size")
    for f in [lambda: quadrature.get_quadrature(rule, n)] + ([lambda: getattr(quadrature, FN[rule])(n)] if rule in FN else []):
        try:
            out = f()
        except Exception as e:
            check(rule in FN or isinstance(e, ValueError), f"unknown rule {rule!r} raised {type(e).__name__}")
            continue
        if rule in FN and FN[rule] == "equispaced":
            raise core.Violation(f"equispaced({n}) returned {out}")
        check(rule in FN and len(out[0]) == n == len(out[1]) and all(0 <= value(i) <= 1 for i in out[0]) and n > 0 and exact(FN[rule], n, out),
              f"{rule}({n}) returned {out}")  # fmt: skip


def exact(fam, n, out):
    """A size beyond the ones known to be supported: accept a correct rule."""
    if n < 1:
        return False
    deg = DEGREE[fam](n)
    p, w = [value(i) for i in out[0]], [value(i) for i in out[1]]
    return all(close(sum(b * a**k for a, b in zip(p, w)), sympy.Rational(1, k + 1)) for k in range(deg + 1))


@st.composite
def rules(draw, rule, n):
    return {"rule": rule, "n": n, "get": draw(st.booleans()) or rule == "gll", "c": draw(st.lists(gen.rats(), min_size=1, max_size=12))}


@st.composite
def bads(draw):
    r = draw(st.one_of(st.sampled_from(sorted(FN)), st.sampled_from(["", "gauss", "Legendre", "GLL", "gl", "gauss-lobatto", "lobatto ", "equi"]), st.text("abdeglorstu", max_size=9)))
    return {"rule": r, "n": draw(st.integers(-2, 12))}


def make_groups(tier, seed):
    k = 30 if tier == "thorough" else 1
    out = []
    for rule, fam in FN.items():
        for n in SIZES[fam] if fam != "equispaced" else range(2, 41 if k > 1 else 15):
            out.append(Group(f"{rule}/{n}", prop_rule, rules(rule, n), 12 * k, n))
    out.append(Group("invalid", prop_bad, bads(), 150 * k, 1))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C12", make_groups, RULE))

"""C16: differential complexes."""

import itertools
import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

from hypothesis import strategies as st

from vlib import core, elems, geo, modlin, num
from vlib.core import Group, check

RULE = (
    "a case is (complex, order, variants, integer coefficients of a member of each space); non-trivial if no space "
    "has dimension 0 and the member is not constant; containment and dimensions are decided exactly (rational "
    "coefficients modulo a prime), the derivatives are also taken with the functions' own grad, curl and div"
)

L, Q, DPC = "Lagrange", "Q", "dPc"
N1, N2, RT, BDM = "Nedelec", "Nedelec2", "Raviart-Thomas", "Brezzi-Douglas-Marini"
S, SC, SD = "serendipity", "serendipity Hcurl", "serendipity Hdiv"
TC, TD = "trimmed serendipity Hcurl", "trimmed serendipity Hdiv"
T, TNC, TND = "tiniest tensor", "tiniest tensor Hcurl", "tiniest tensor Hdiv"


def complexes():
    """(name, cell, [(derivative, family, order offset)...], lowest and highest order of the first space)."""
    tri, tet, quad, hexa = "triangle", "tetrahedron", "quadrilateral", "hexahedron"
    out = []

    def two(name, cell, a, c, d, z, o, lo, hi):
        out.append((name + " curl", cell, [("grad", a, 0), ("curl2", c, o[0]), (None, z, o[1])], lo, hi))
        if d:
            out.append((name + " div", cell, [("rot2", a, 0), ("div", d, o[0]), (None, z, o[1])], lo, hi))

    two("first kind", tri, L, N1, RT, L, (0, -1), 1, 8)
    two("second kind", tri, L, N2, BDM, L, (-1, -2), 2, 8)
    two("mixed kinds", tri, L, N2, BDM, L, (-1, -2), 2, 4)
    two("tensor", quad, Q, "NCE", "NCF", Q, (0, -1), 1, 7)
    two("serendipity", quad, S, SC, SD, DPC, (-1, -2), 2, 8)
    two("trimmed serendipity", quad, S, TC, TD, DPC, (0, -1), 1, 8)
    two("tiniest tensor", quad, T, TNC, TND, Q, (0, 0), 1, 6)

    def three(name, cell, a, c, d, z, o, lo, hi):
        out.append((name, cell, [("grad", a, 0), ("curl3", c, o[0]), ("div", d, o[1]), (None, z, o[2])], lo, hi))

    three("first kind", tet, L, N1, RT, L, (0, 0, -1), 1, 5)
    three("second kind", tet, L, N2, BDM, L, (-1, -2, -3), 3, 5)
    three("N2 then first kind", tet, L, N2, RT, L, (-1, -1, -2), 2, 5)
    three("N1 then BDM", tet, L, N1, BDM, L, (0, -1, -2), 2, 5)
    three("tensor", hexa, Q, "NCE", "NCF", Q, (0, 0, -1), 1, 3)
    three("serendipity", hexa, S, SC, SD, DPC, (-1, -2, -3), 3, 6)
    three("trimmed serendipity", hexa, S, TC, TD, DPC, (0, 0, -1), 1, 3)
    three("tiniest tensor", hexa, T, TNC, TND, Q, (0, 0, 0), 1, 2)
    out.append(("prism", "prism", [("grad", L, 0), ("curl3", N1, 0)], 1, 2))
    # the last link of complexes whose other spaces are not in the library
    for name, cell, off, lo, hi in (("Brezzi-Douglas-Fortin-Marini", tri, -1, 1, 6), ("Brezzi-Douglas-Fortin-Marini", tet, -1, 1, 4)):
        out.append((f"{name} divergence", cell, [("div", name, 0), (None, L, off)], lo, hi))
    for cell, hi in ((quad, 6), (hexa, 4)):
        out.append(("BDFM divergence", cell, [("div", "Brezzi-Douglas-Fortin-Marini", 0), (None, DPC, -1)], 1, hi))
    # (the BDDF space is not the one of Arnold and Awanou, so it ends no serendipity complex)
    out.append(("BDDF divergence", hexa, [("div", "BDDF", 0), (None, DPC, -1)], 1, 4))
    out.append(("Arnold-Boffi-Falk divergence", quad, [("div", "Arnold-Boffi-Falk", 0), ("abf", None, 0)], 0, 4))
    out.append(("Arbogast-Correa divergence", quad, [("div", "AC", 0), (None, DPC, 0)], 0, 5))
    return [c for c in out if "mixed" not in c[0]]


D = {
    "grad": lambda f, d: modlin.grad(f, d),
    "rot2": lambda f, d: modlin.rot2(f),
    "curl2": lambda f, d: modlin.curl2(f),
    "curl3": lambda f, d: modlin.curl3(f),
    "div": lambda f, d: modlin.div(f),
}


def own(op, f, d):
    """The derivative by the function itself."""
    if op == "grad":
        return f.grad(d)
    if op == "rot2":
        g = f.grad(2)
        return (g[1], -g[0])
    if op == "curl2":
        return f[1].diff(num.X[0]) - f[0].diff(num.X[1])
    return f.curl() if op == "curl3" else f.div()


def combine(fs, c):
    out = [{} for _ in fs[0]]
    for k, f in zip(c, fs):
        out = [num.padd(o, p, k) for o, p in zip(out, f)]
    return out


def prop(case, ctx):
    _, cell, links, _, _ = next(c for c in complexes() if c[0] == case["complex"] and c[1] == case["cell"])
    d = geo.TDIM[cell]
    spaces = []
    for n, (op, fam, off) in enumerate(links):
        if fam is None:
            # all monomials x^i y^j with i, j <= k + 1, not both k + 1 (Arnold, Boffi and Falk)
            k = case["order"]
            fs = [[{(i, j, 0): geo.Fr(1)}] for i, j in itertools.product(range(k + 2), repeat=2) if (i, j) != (k + 1, k + 1)]
            spaces.append((None, "the published image", fs, None))
            continue
        kw = {}
        if case["variant"][n % len(case["variant"])] and fam not in ("Q", "AC"):
            kw = {"variant": case["variant"][n % len(case["variant"])]}
        cfg = [cell, fam, case["order"] + off, kw]
        e = elems.get(*cfg)
        raw = e.get_polynomial_basis()
        try:
            fs = [modlin.field(f) for f in raw]
        except modlin.NotRational:
            cfg = [cell, fam, case["order"] + off, {}]
            e = elems.get(*cfg)
            raw = e.get_polynomial_basis()
            fs = [modlin.field(f) for f in raw]
        spaces.append((op, elems.cfg_name(cfg), fs, raw))
    ctx.label(f"complex:{case['cell']}/{case['complex']}", f"order:{case['order']}")
    prev = None
    for n, (op, name, fs, raw) in enumerate(spaces):
        dim = len(fs)
        check(modlin.rank(fs) == dim, f"{name}: the polynomial set is dependent")
        if op is None:
            if prev is not None:
                check(prev == dim, f"{case['complex']}: the image in {name} has dimension {prev}, the space {dim}")
                ctx.count()
            break
        img = [D[op](f, d) for f in fs]
        ctx.count(2)
        if n + 1 < len(spaces):
            bad = modlin.contains(spaces[n + 1][2], img)
            check(not bad, f"{op} of {raw[bad[0]] if bad else ''} in {name} is not in {spaces[n + 1][1]}")
        r = modlin.rank(img) if any(any(p for p in f) for f in img) else 0
        kernel = dim - r
        if n == 0 and op in ("grad", "rot2"):
            check(kernel == 1, f"the kernel of {op} on {name} has dimension {kernel}")
        elif prev is not None:
            check(kernel == prev, f"{case['complex']}: the kernel of {op} on {name} has dimension {kernel}, the image of {spaces[n - 1][1]} {prev}")
        prev = r
        # a member, differentiated by the library
        c = [case["c"][i % len(case["c"])] * (1 + i // len(case["c"])) for i in range(dim)]
        f = combine(fs, c)
        sf = raw[0] * 0 if False else None
        for k, g in zip(c, raw):
            sf = k * g if sf is None else sf + k * g
        got = num.shape_and_flat(own(op, sf, d))[1]
        want = D[op](f, d)
        ctx.count()
        check([num.poly(p) for p in got] == want, f"{op} of a member of {name} is {got}, not {[num.pto_sympy(p) for p in want]}")
        if all(sum(m) == 0 for p in f for m in p):
            ctx.trivial("constant member")
    if case["basis"]:
        # the same for the actual basis functions
        for n, (op, name, fs, raw) in enumerate(spaces[:-1]):
            link = links[n]
            e = elems.get(cell, link[1], case["order"] + link[2], {})
            b = [modlin.field(g) for g in e.get_basis_functions()]
            ctx.count()
            ctx.label("basis functions")
            bad = modlin.contains(spaces[n + 1][2], [D[op](g, d) for g in b])
            check(not bad, f"{op} of basis function {bad[:1]} of {name} is not in {spaces[n + 1][1]}")


def rotated(case, ctx):
    """Div-conforming spaces are the curl-conforming ones turned by a right angle."""
    a = elems.get(case["cell"], case["curl"], case["order"], {})
    b = elems.get(case["cell"], case["div"], case["order"], {})
    f = [modlin.field(g) for g in a.get_polynomial_basis()]
    g = [modlin.field(h) for h in b.get_polynomial_basis()]
    turned = [[p[1], num.padd({}, p[0], -1)] for p in f]
    ctx.label(f"rotated:{case['curl']}")
    ctx.count(2)
    check(len(f) == len(g), f"{case['curl']} has dimension {len(f)}, {case['div']} {len(g)}")
    bad = modlin.contains(turned, g)
    check(not bad, f"{case['div']}/{case['order']}: {b.get_polynomial_basis()[bad[0]] if bad else ''} is not a rotated member of {case['curl']}")
    check(a.space_dim == b.space_dim == len(f), "space_dim")


def make_groups(tier, seed):
    q = tier == "quick"
    fast = {elems.cfg_name(elems.cfg(r)) for r in elems.table() if r["cost"] < (0.25 if q else 20)}
    out = []
    for name, cell, links, lo, hi in complexes():
        for k in range(lo, hi + 1):
            def usable(link):
                return any(f"{cell}/{link[1]}/{k + link[2]}{s}" in fast for s in ("", "/variant=equispaced", "/variant=point"))

            basis = all(f is not None for _, f, _ in links) and all(usable(link) for link in links[:-1])
            case = {
                "complex": st.just(name), "cell": st.just(cell), "order": st.just(k), "basis": st.just(basis),
                "variant": st.lists(st.sampled_from([None, None, "legendre"]), min_size=1, max_size=3) if k <= 3 and cell in ("triangle", "quadrilateral") else st.just([None]),
                "c": st.lists(st.integers(-9, 9).filter(bool), min_size=3, max_size=8),
            }  # fmt: skip
            n = (2 if k <= 3 else 1) if q else 5
            out.append(Group(f"complex/{cell}/{name}/{k}", prop, st.fixed_dictionaries(case), n, k ** geo.TDIM[cell]))
    for cell, a, b, lo, hi in (("triangle", N1, RT, 1, 8), ("triangle", N2, BDM, 1, 7), ("quadrilateral", "NCE", "NCF", 1, 7), ("quadrilateral", SC, SD, 1, 8), ("quadrilateral", TC, TD, 1, 8), ("quadrilateral", TNC, TND, 1, 6)):
        out.append(Group(f"rotated/{cell}/{a}", rotated, [{"cell": cell, "curl": a, "div": b, "order": k} for k in range(lo, hi + 1)], 1, 8))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C16", make_groups, RULE))

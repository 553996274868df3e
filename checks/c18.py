"""C18: tensor-product factorisations."""

import itertools
import sys
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import numpy as np
import sympy

import symfem
from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement, FiniteElement, NoTensorProduct
from symfem.functionals import PointEvaluation

RULE = (
    "a case is an element (of every family, on default and generated cells, or a user-defined one with a generated "
    "factorisation) with a history of calls; non-trivial if a factorisation exists or more than one kind of call is "
    "made; the oracle is the product of the factors' functions, duality with the DOFs, and the factor-free basis of a "
    "fresh element"
)


def product_values(factorisation, n, d, pts, ctx, name):
    """Values of the product functions, [number][point], computed from the factors only."""
    out = {}
    for t, factors, perm in factorisation:
        check(t == "scalar", f"{name}: factorisation of type {t!r}")
        check(len(factors) == d, f"{name}: {len(factors)} factors on a cell of dimension {d}")
        vals = []
        for i, f in enumerate(factors):
            check(isinstance(f, FiniteElement) and f.reference.name == "interval", f"{name}: factor {f!r} is not on an interval")
            fs = f.get_basis_functions()
            vals.append(num.lam_mp([num.raw(g) for g in fs])(pts[:, i : i + 1]) if len(pts) else np.zeros((len(fs), 0)))
        sizes = [len(v) for v in vals]
        check(len(perm) == int(np.prod(sizes)), f"{name}: {len(perm)} positions for {sizes} factor functions")
        for p, k in zip(perm, itertools.product(*map(range, sizes))):
            check(isinstance(p, int) and 0 <= p < n and p not in out, f"{name}: position {p} is out of range or used twice")
            out[p] = np.prod([v[i] for v, i in zip(vals, k)], axis=0)
    check(set(out) == set(range(n)), f"{name}: the factorisation describes {sorted(out)} of {n} functions")
    return np.array([out[i] for i in range(n)])


def floats(fs, pts):
    return num.Ev(fs, lam=num.lam_mp)(pts).reshape(len(fs), -1)


def factorised(e):
    try:
        return e.get_tensor_factorisation()
    except NoTensorProduct:
        return None


def sample(cell, vs):
    pts = np.array([[float(c) for c in p] for p in num.sample_points(cell, 5)])
    return geo.Affine.from_vertices(cell, vs).np(pts)


def duality(e, cell, vs, ctx, name):
    """The products at the points of the DOFs (point evaluations) are the identity matrix."""
    fac = factorised(e)
    if fac is None:
        return False
    if not all(type(d) is PointEvaluation for d in e.dofs):
        return False
    pts = np.array([[float(c) for c in d.dof_point()] for d in e.dofs])
    A = product_values(fac, e.space_dim, len(vs[0]), pts, ctx, name)
    ctx.count(e.space_dim**2)
    ctx.label("duality")
    err = np.abs(A - np.eye(e.space_dim))
    i, j = np.unravel_index(err.argmax(), err.shape)
    check(err[i, j] < 1e-9, f"{name}: the product stated for function {i} is {A[i, j]} at the point of DOF {j}")
    return True


def run_history(make, ops, cell, vs, ctx, name, basis=True):
    """Any order of calls on one element gives the basis of a fresh element."""
    ref = make()
    fac0 = factorised(ref)
    pts = sample(cell, vs)
    d = len(vs[0])
    want = floats(make().get_basis_functions(), pts) if basis else None
    if fac0 is not None and want is not None:
        A = product_values(fac0, ref.space_dim, d, pts, ctx, name)
        ctx.count()
        check(np.abs(A - want).max() < 1e-8 * (1 + np.abs(want).max()), f"{name}: the product of the factors is not the basis function ({np.abs(A - want).max():.1e})")
    e = make()
    done = []
    for op in ops:
        done.append(op)
        say = f"{name} after {done}"
        ctx.count()
        if op == "plain":
            if not basis:
                continue
            got = floats(e.get_basis_functions(), pts)
        elif op in ("tensor", "private"):
            try:
                fs = e.get_basis_functions(use_tensor_factorisation=True) if op == "tensor" else e._get_basis_functions_tensor()
            except NoTensorProduct:
                check(fac0 is None, f"{say}: NoTensorProduct although there is a factorisation")
                continue
            check(fac0 is not None, f"{say}: a factorised basis was returned by an element without a factorisation")
            check(len(fs) == e.space_dim, f"{say}: {len(fs)} functions")
            got = floats(fs, pts)
            if want is None:
                want = product_values(fac0, ref.space_dim, d, pts, ctx, name)
        elif op == "factors":
            fac = factorised(e)
            check((fac is None) == (fac0 is None), f"{say}: factorisation {fac}, from a fresh element {fac0}")
            if fac is not None:
                check([(t, list(p)) for t, _, p in fac] == [(t, list(p)) for t, _, p in fac0], f"{say}: the factorisation changed")
                fac[0][2].reverse()  # returned data may be used freely
            continue
        elif op == "one":
            if not basis:
                continue
            n = len(done) % e.space_dim
            f = e.get_basis_function(n)
            got = floats([f.get_function()], pts)
            check(np.abs(got - want[n : n + 1]).max() < 1e-8 * (1 + np.abs(want).max()), f"{say}: basis function {n} differs")
            continue
        elif op == "dual":
            if not basis or not isinstance(e, CiarletElement):
                continue
            e.get_dual_matrix()
            continue
        elif op == "tabulate":
            if not basis:
                continue
            tab = e.tabulate_basis_float([[float(c) for c in p] for p in pts])
            got = np.array(tab, dtype=float)
            check(np.isfinite(got).all(), f"{say}: tabulation is not finite")
            continue
        check(got.shape == want.shape, f"{say}: shape {got.shape}")
        err = np.abs(got - want).max()
        check(err < 1e-8 * (1 + np.abs(want).max()), f"{say}: the basis functions differ from those of a fresh element by {err:.1e}")
    if fac0 is None and len(set(ops)) < 2:
        ctx.trivial("no factorisation, one call")
    return fac0


def prop(case, ctx):
    cell, fam, k, kw = case["cfg"]
    vs = [tuple(v) for v in geo.DEFAULT[cell]]
    symvs = None
    if case["map"]:
        vs = gen.verts_of(case["map"], cell)
        symvs = [num.RP(v) for v in vs]
    name = elems.cfg_name(case["cfg"]) + (f" on {[tuple(map(str, v)) for v in vs]}" if case["map"] else "")

    def make():
        return elems.get(cell, fam, k, kw, vertices=symvs, fresh=True)

    ctx.label(f"family:{fam}", f"cell:{cell}")
    if case["map"]:
        try:
            make()
        except NotImplementedError:
            ctx.trivial("not available on this cell")
            return
    fac = run_history(make, case["ops"], cell, vs, ctx, name, case["basis"])
    ctx.label("factorisation" if fac is not None else "no factorisation")
    e = make()
    if not case["map"]:
        # documented: Q (Lagrange on quadrilaterals and hexahedra) is a product of intervals
        if fam == "Q" and kw.get("variant", "equispaced") == "equispaced":
            check(fac is not None, f"{name}: no factorisation")
        if fac is not None:
            ctx.label("duality" if duality(e, cell, vs, ctx, name) else "no point DOFs")


def big(case, ctx):
    """Factorised basis at orders whose dual matrix would take too long to invert."""
    cell, k = case["cell"], case["order"]
    e = elems.get(cell, "Q", k, {"variant": case["variant"]}, fresh=True)
    vs = [tuple(v) for v in geo.DEFAULT[cell]]
    name = f"{cell}/Q/{k}/{case['variant']}"
    ctx.label(f"big:{cell}/{k}")
    check(duality(e, cell, vs, ctx, name) or case["variant"] != "equispaced", f"{name}: no factorisation")
    fac = factorised(e)
    if fac is None:
        ctx.trivial("no factorisation")
        return
    # its own assembly agrees at some points
    pts = np.array([[p[i % len(p)] / 16 for i in range(len(vs[0]))] for p in case["pts"]])
    A = product_values(fac, e.space_dim, len(vs[0]), pts, ctx, name)
    fs = e.get_basis_functions(use_tensor_factorisation=True)
    check(len(fs) == e.space_dim, f"{name}: {len(fs)} functions")
    take = sorted({p % e.space_dim for p in case["which"]})
    got = floats([fs[i] for i in take], pts)
    ctx.count(len(take))
    err = np.abs(got - A[take]).max()
    check(err < 1e-8, f"{name}: the factorised basis function differs from the product of its factors by {err:.1e}")


# ------------------------------------------------------------------ user-defined factorisations
class _Names:
    names = ["user tensor element"]
    references = ["interval", "quadrilateral", "hexahedron"]
    min_order = 0
    continuity = "L2"
    value_type = "scalar"
    last_updated = "never"
    lagrange_subdegree = polynomial_subdegree = 0
    lagrange_superdegree = polynomial_superdegree = None

    def get_tensor_factorisation(self):
        if self.fac is None:
            raise NoTensorProduct()
        return [(t, list(f), list(p)) for t, f, p in self.fac]


class UserDirect(_Names, DirectElement):
    pass


class UserCiarlet(_Names, CiarletElement):
    pass


class UserEnriched(_Names, EnrichedElement):
    pass


def interval_functions(k):
    """Equispaced Lagrange functions of degree k on [0, 1], as polynomials in one variable, with their points."""
    e = elems.get("interval", "Lagrange", k, {})
    return [num.raw(f) for f in e.get_basis_functions()], [d.dof_point()[0] for d in e.dofs]


def user(case, ctx):
    """Element whose factorisation has generated factors (of different degrees), parts and positions."""
    cell, kind = case["cell"], case["kind"]
    d = geo.TDIM[cell]
    ref = symfem.create_reference(cell)
    parts = case["parts"] if kind == "direct" else case["parts"][:1]
    total = sum(int(np.prod([k + 1 for k in p[:d]])) for p in parts)
    order = sorted(range(total), key=lambda i: (case["shuffle"][i % len(case["shuffle"])] * (i + 3) * 7919 % 1009, i))
    funcs, points, fac, at = [None] * total, [None] * total, [], 0
    for degs in parts:
        degs = degs[:d]
        per = [interval_functions(k) for k in degs]
        perm = []
        for idx in itertools.product(*[range(k + 1) for k in degs]):
            p = order[at]
            at += 1
            perm.append(p)
            f = sympy.Integer(1)
            for i, (fs, _) in zip(range(d), per):
                f *= fs[idx[i]].subs(num.X[0], num.X[i])
            funcs[p] = sympy.expand(f)
            points[p] = tuple(per[i][1][idx[i]] for i in range(d))
        fac.append(("scalar", [elems.get("interval", "Lagrange", k, {}) for k in degs], perm))
    ctx.label(f"user:{kind}", f"cell:{cell}", f"parts:{len(parts)}")

    def make():
        if kind == "direct":
            e = UserDirect(ref, 1, list(funcs), [(d, 0)] * total, d, 1)
        elif kind == "ciarlet":
            degs = parts[0][:d]
            poly = [sympy.prod([x**i for x, i in zip(num.X, m)]) for m in itertools.product(*[range(k + 1) for k in degs])]
            e = UserCiarlet(ref, 1, poly, [PointEvaluation(ref, p, entity=(d, 0)) for p in points], d, 1)
        else:
            half = total // 2
            e = UserEnriched([UserDirect(ref, 1, funcs[:half], [(d, 0)] * half, d, 1), UserDirect(ref, 1, funcs[half:], [(d, 0)] * (total - half), d, 1)] if half else [UserDirect(ref, 1, list(funcs), [(d, 0)] * total, d, 1)])
            for s in e._subelements:
                s.fac = None
        e.fac = fac if case["has"] else None
        return e

    vs = [tuple(v) for v in geo.DEFAULT[cell]]
    got = run_history(make, case["ops"], cell, vs, ctx, f"user element {case}")
    check((got is not None) == case["has"], "factorisation")
    e = make()
    pts = sample(cell, vs)
    want = num.lam(funcs)(pts)
    if case["has"]:
        fs = e.get_basis_functions(use_tensor_factorisation=True)
        ctx.count()
        check(np.abs(floats(fs, pts) - want).max() < 1e-9, f"user element {case}: the factorised basis is not the one stated")
        # a kind of product that is not known
        e = make()
        e.fac = [("cross", fac[0][1], fac[0][2])]
        try:
            e.get_basis_functions(use_tensor_factorisation=True)
        except ValueError:
            return
        check(False, "a factorisation of unknown type was accepted")


OPS = ["plain", "tensor", "private", "factors", "one", "dual", "tabulate"]


@st.composite
def users(draw, cell):
    return {
        "cell": cell, "kind": draw(st.sampled_from(["direct", "ciarlet", "enriched"])),
        "parts": draw(st.lists(st.lists(st.integers(0, 2), min_size=3, max_size=3), min_size=1, max_size=3)),
        "shuffle": draw(st.lists(st.integers(1, 1000), min_size=1, max_size=12)), "has": draw(st.sampled_from([True, True, True, False])),
        "ops": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=5)),
    }  # fmt: skip


def make_groups(tier, seed):
    q = tier == "quick"
    out = []
    ops = st.lists(st.sampled_from(OPS), min_size=2, max_size=6)
    seen = set()
    for slow, r in [(0, r) for r in elems.table()] + [(1, r) for r in elems.creatable()]:
        c = elems.cfg(r)
        name = elems.cfg_name(c)
        if name in seen or c[0] not in geo.TDIM:
            continue
        seen.add(name)
        tensorial = c[1] in ("Q", "Lagrange", "vector Q", "serendipity", "tiniest tensor", "dPc", "bubble") and c[0] in ("quadrilateral", "hexahedron", "interval")
        if r.get("create", r.get("cost", 0)) > ((0.3 if tensorial else 0.05) if q else 5):
            continue
        basis = not slow and r["cost"] < ((0.15 if tensorial else 0.05) if q else 10)
        if slow and not tensorial and q:
            continue
        if (c[1] == "bubble" and c[3].get("variant") != "equispaced"):
            continue
        d = {"cfg": st.just(c), "basis": st.just(basis)}
        n = 3 if c[1] == "Q" and basis else 1
        out.append(Group(f"default/{name}", prop, st.fixed_dictionaries({**d, "ops": ops, "map": st.none()}), n if q else 8 * n, 0.2))
        if tensorial and basis and r["cost"] < (0.1 if q else 3):
            out.append(Group(f"moved/{name}", prop, st.fixed_dictionaries({**d, "ops": ops, "map": gen.affine(geo.TDIM[c[0]])}), 2 if q else 8, 0.2))
    pts = st.lists(st.lists(st.integers(0, 16), min_size=1, max_size=3), min_size=2, max_size=4)
    which = st.lists(st.integers(0, 1000), min_size=2, max_size=5)
    for cell, hi in (("quadrilateral", 9 if q else 14), ("hexahedron", 5 if q else 7)):
        for k in range(0, hi + 1):
            for v in ["equispaced"] + (["radau"] if k <= 2 else []) + (["legendre", "lobatto"] if k <= 3 else []):
                if q and cell == "hexahedron" and k > 2 and v in ("legendre", "lobatto"):
                    continue  # nested roots: a minute
                out.append(Group(f"big/{cell}/{k}/{v}", big, st.fixed_dictionaries({"cell": st.just(cell), "order": st.just(k), "variant": st.just(v), "pts": pts, "which": which}), 1 if q else 3, k ** geo.TDIM[cell] / 50))
    for cell in ("interval", "quadrilateral", "hexahedron"):
        out.append(Group(f"user/{cell}", user, users(cell), 40 if q else 1000, 10 if cell == "hexahedron" else 3))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C18", make_groups, RULE))

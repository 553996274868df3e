"""C20: dual, Buffa-Christiansen and rotated Buffa-Christiansen elements on dual polygons."""

import math
import sys

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, num
from vlib.core import Group, check

import numpy as np
import sympy

import symfem
from symfem.piecewise_functions import PiecewiseFunction
from symfem.references import NonDefaultReferenceError

RULE = (
    "a case is a dual polygon, an element on it, a basis function and points in its fine triangles and on its fine "
    "edges; every case is non-trivial; the oracle is the geometry of the regular polygon and the published "
    "definition (values, fluxes and uniform divergence) of the functions of Buffa and Christiansen"
)
X = num.X
NAMES = {"dual": ["dual", "dual P", "dual polynomial"], "BC": ["BC", "Buffa-Christiansen"], "RBC": ["RBC", "rotated Buffa-Christiansen"]}


def polygon(n):
    """Vertices of the polygon, in float: vertices of the regular n-gon and the midpoints of its sides."""
    out = []
    for i in range(n):
        a, b = 2 * math.pi * i / n, 2 * math.pi * (i + 1) / n
        out.append((math.cos(a), math.sin(a)))
        out.append(((math.cos(a) + math.cos(b)) / 2, (math.sin(a) + math.sin(b)) / 2))
    return np.array(out)


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def fl(p):
    return np.array([float(c) for c in p])


_fine = {}


def fine(f, n, say):
    """Fine(f), built once for each function object."""
    if id(f) not in _fine or _fine[id(f)][0] is not f:
        if len(_fine) > 200:
            _fine.clear()
        _fine[id(f)] = (f, Fine(f, n, say))
    return _fine[id(f)][1]


def floated(e):
    """Constants (sines, cosines, roots) as floats, so that expressions are short."""
    consts = {a: sympy.N(a, 30) for a in e.atoms(sympy.cos, sympy.sin, sympy.Pow) if not a.free_symbols and not (a.is_Pow and a.base == sympy.E)}
    return e.xreplace(consts)


class Fine:
    """The pieces of a function, indexed by fine triangle."""

    def __init__(self, f, n, say):
        check(isinstance(f, PiecewiseFunction), f"{say} is a {type(f).__name__}")
        V = polygon(n)
        self.n, self.V = n, V
        self.tri = [None] * (2 * n)
        ps = list(f.pieces.items())
        check(len(ps) == 2 * n, f"{say} has {len(ps)} pieces, not one for each of the {2 * n} fine triangles")
        for vs, g in ps:
            vs = [fl(v) for v in vs]
            check(len(vs) == 3, f"{say}: piece {vs} is not a triangle")
            for t in range(2 * n):
                want = [np.zeros(2), V[t], V[(t + 1) % (2 * n)]]
                if all(min(np.abs(v - w).max() for v in vs) < 1e-9 for w in want):
                    break
            else:
                check(False, f"{say}: piece {vs} is not a fine triangle")
            check(self.tri[t] is None, f"{say}: two pieces on fine triangle {t}")
            exprs = num.shape_and_flat(g)[1]
            self.ncomp = len(exprs)
            free = set().union(*[e.free_symbols for e in exprs])
            check(free <= set(X[:2]), f"{say}: free symbols {free}")
            self.tri[t] = num.lam([floated(e) for e in exprs])
            self.exprs = exprs

    def __call__(self, t, pts):
        """Values [point][component] of the piece on fine triangle t."""
        return self.tri[t % (2 * self.n)](np.atleast_2d(pts)).T


def linear(F, say, ctx):
    """Every piece is affine."""
    p = np.array([(0.1, 0.3), (0.7, -0.2), (-0.4, 0.9)])
    for t in range(2 * F.n):
        v = F(t, np.vstack([p, p.mean(axis=0), 3 * p[0] - 2 * p[1]]))
        ctx.count()
        check(np.abs(v[3] - v[:3].mean(axis=0)).max() < 1e-9 and np.abs(v[4] - (3 * v[0] - 2 * v[1])).max() < 1e-8, f"{say}: not affine on fine triangle {t}")


def div_const(F, t, rot):
    """The (constant) divergence, or scalar curl, of an affine vector piece."""
    v = F(t, [(0, 0), (1, 0), (0, 1)])
    if rot:
        return (v[1] - v[0])[1] - (v[2] - v[0])[0]
    return (v[1] - v[0])[0] + (v[2] - v[0])[1]


def R(v):
    """Rotation by a quarter turn."""
    return np.stack([-v[..., 1], v[..., 0]], axis=-1)


def bary(F, t, w):
    w = np.array(w, dtype=float)
    w /= w.sum()
    return w[0] * 0 + w[1] * F.V[t] + w[2] * F.V[(t + 1) % (2 * F.n)]


def edge_points(F, e, ts):
    """Points of the fine edge from the centre to vertex e."""
    return np.array([F.V[e % (2 * F.n)] * t for t in ts])


def dual0(fs, n, case, ctx, name):
    F = fine(fs[0], n, f"{name} function 0")
    for t in range(2 * n):
        v = F(t, [bary(F, t, w) for w in case["w"]])
        ctx.count(len(v))
        check(np.abs(v - 1).max() < 1e-12, f"{name}: function 0 is {v.ravel()} on fine triangle {t}, not 1")


def dual1(fs, n, case, ctx, name):
    for j, f in enumerate(fs):
        say = f"{name} function {j}"
        F = fine(f, n, say)
        linear(F, say, ctx)
        want = np.zeros(2 * n)
        want[2 * j] = 1
        want[2 * j - 1] = want[2 * j + 1] = 0.5
        for t in range(2 * n):
            v = F(t, [(0, 0), F.V[t], F.V[(t + 1) % (2 * n)]])[:, 0]
            w = np.array([1 / n, want[t], want[(t + 1) % (2 * n)]])
            ctx.count(3)
            check(np.abs(v - w).max() < 1e-9, f"{say}: values {v} at the corners of fine triangle {t}, should be {w}")
        for e in range(2 * n):
            p = edge_points(F, e, case["t"])
            a, b = F(e - 1, p), F(e, p)
            ctx.count(len(p))
            check(np.abs(a - b).max() < 1e-9, f"{say}: jumps by {np.abs(a - b).max()} across the fine edge to vertex {e}")


def bc(fs, n, case, ctx, name, rotated):
    """Conforming, uniform divergence, all of the flux through the two fine sides next to the vertex."""
    sgn = []
    for j, f in enumerate(fs):
        say = f"{name} function {j}"
        F = fine(f, n, say)
        check(F.ncomp == 2, f"{say} has {F.ncomp} components")
        linear(F, say, ctx)
        N = 2 * n
        comp = (lambda v, tan: v @ tan) if rotated else (lambda v, tan: v @ (-R(tan)))  # -R(tan): outward for ccw tangents
        for e in range(N):
            tan = F.V[e]
            p = edge_points(F, e, case["t"])
            a, b = comp(F(e - 1, p), tan), comp(F(e, p), tan)
            ctx.count(len(p))
            check(np.abs(a - b).max() < 1e-9, f"{say}: the {'tangential' if rotated else 'normal'} component jumps by {np.abs(a - b).max()} across the fine edge to vertex {e}")
            if e == 2 * j:
                check(np.abs(a).max() < 1e-9, f"{say}: flux {a} across the fine edge to its own vertex")
        flux = []
        for t in range(N):
            tan = F.V[(t + 1) % N] - F.V[t]
            p = np.array([F.V[t] + s * tan for s in case["t"]])
            v = comp(F(t, p), tan)
            ctx.count(len(p))
            check(np.ptp(v) < 1e-9, f"{say}: flux density {v} is not constant on fine side {t}")
            flux.append(v[0])
        want = np.zeros(N)
        want[2 * j] = want[2 * j - 1] = 0.5
        s = 1 if flux[2 * j] > 0 else -1
        sgn.append(s)
        check(np.abs(np.array(flux) - s * want).max() < 1e-9, f"{say}: fluxes {np.round(flux, 6)} through the fine sides, should be {s * want}")
        area = abs(cross(F.V[0], F.V[1])) / 2
        d = np.array([div_const(F, t, rotated) for t in range(N)]) * area
        ctx.count(N)
        check(np.abs(d - s / N).max() < 1e-9, f"{say}: the {'curl' if rotated else 'divergence'} is not uniform: {np.round(d, 6)} on the fine triangles, should be {s / N}")
    check(len(set(sgn)) == 1, f"{name}: the functions have fluxes of different signs: {sgn}")


def rotation(n, case, ctx, name):
    """The rotated functions are the functions rotated by a quarter turn, all in the same direction."""
    a = elems.get(f"dual polygon({n})", "BC", 1).get_basis_functions()
    b = elems.get(f"dual polygon({n})", "RBC", 1).get_basis_functions()
    check(len(a) == len(b), f"{len(a)} BC and {len(b)} RBC functions on {n} triangles")
    sgn = None
    for j, (f, g) in enumerate(zip(a, b)):
        F, G = fine(f, n, f"BC({n}) function {j}"), fine(g, n, f"RBC({n}) function {j}")
        for t in range(2 * n):
            p = np.array([bary(F, t, w) for w in case["w"]])
            u, v = R(F(t, p)), G(t, p)
            if sgn is None:
                sgn = 1 if np.abs(u - v).max() < 1e-9 else -1
            ctx.count(len(p))
            check(np.abs(sgn * u - v).max() < 1e-9, f"RBC({n}) function {j} is not the rotation of the BC function on fine triangle {t}: {v[0]}, BC rotated {sgn * u[0]}")


def dofs(e, n, fam, k, name, ctx):
    """Number of functions, entities, positions and directions."""
    V = polygon(n)
    N = 1 if k == 0 else n
    check(e.space_dim == N and len(e.get_basis_functions()) == N, f"{name}: space_dim {e.space_dim}, {len(e.get_basis_functions())} functions, should be {N}")
    want = [(2, 0)] if k == 0 else [(0, 2 * j) for j in range(n)]
    check([tuple(x) for x in e.dof_entities()] == want, f"{name}: entities {e.dof_entities()}, should be {want}")
    for dim in range(3):
        for i in range([2 * n, 2 * n, 1][dim]):
            ds = [j for j, x in enumerate(want) if x == (dim, i)]
            ctx.count()
            check(list(e.entity_dofs(dim, i)) == ds, f"{name}: entity_dofs({dim}, {i}) = {e.entity_dofs(dim, i)}, should be {ds}")
    pos = e.dof_plot_positions()
    check(len(pos) == N, f"{name}: {len(pos)} plot positions")
    for p, (dim, i) in zip(pos, want):
        w = V[i] if dim == 0 else np.zeros(2)
        check(np.abs(fl(p) - w).max() < 1e-9, f"{name}: plot position {p} of the DOF on {(dim, i)}, which is at {w}")
    dirs = e.dof_directions()
    check(len(dirs) == N, f"{name}: {len(dirs)} directions")
    for d, (dim, i) in zip(dirs, want):
        if fam == "dual":
            check(d is None, f"{name}: a DOF of a scalar function has direction {d}")
        else:
            c = fl(d)
            check(np.linalg.norm(c) > 1e-9 and abs(cross(c, V[i])) < 1e-9, f"{name}: direction {d} of the DOF at {V[i]}")


def prop(case, ctx):
    n, fam, k = case["n"], case["fam"], case["order"]
    cell = f"dual polygon({n})"
    names = NAMES[fam]
    e = elems.get(cell, names[case["alias"] % len(names)], k)
    name = f"{fam}({n}) order {k}"
    ctx.label(f"n:{n}", f"family:{fam}/{k}")
    fs = e.get_basis_functions()
    dofs(e, n, fam, k, name, ctx)
    if fam == "dual":
        (dual0 if k == 0 else dual1)(fs, n, case, ctx, name)
        if k == 1:  # partition of unity
            Fs = [fine(f, n, name) for f in fs]
            for t in range(2 * n):
                s = sum(F(t, [bary(Fs[0], t, w) for w in case["w"]]) for F in Fs)
                ctx.count(len(s))
                check(np.abs(s - 1).max() < 1e-9, f"{name}: the functions add up to {s.ravel()} on fine triangle {t}")
    else:
        bc(fs, n, case, ctx, name, fam == "RBC")
        if fam == "RBC":
            rotation(n, case, ctx, name)
    check(e.get_basis_functions() is fs or len(e.get_basis_functions()) == len(fs), f"{name}: second call")


def public(case, ctx):
    """Evaluation, tabulation and integrals through the public interface."""
    n, fam, k = case["n"], case["fam"], case["order"]
    e = elems.get(f"dual polygon({n})", fam, k)
    name = f"{fam}({n}) order {k}"
    ctx.label(f"public:{fam}/{k}")
    fs = e.get_basis_functions()
    j = case["j"] % len(fs)
    F = fine(fs[j], n, f"{name} function {j}")
    vs = list(e.reference.vertices)
    pts, ts = [], []
    for t, w in zip(case["ts"], case["w"]):
        t %= 2 * n
        p = fl(bary(F, t, w))
        pts.append(tuple(sympy.Rational(int(round(c * 10**6)), 10**6) for c in p))
        ts.append(t)
    tab = e.tabulate_basis(pts, "xyzxyz")
    check(len(tab) == len(pts), f"{name}: {len(tab)} rows for {len(pts)} points")
    w = 1 if fam == "dual" else 2
    for p, t, row in zip(pts, ts, tab):
        want = F(t, [fl(p)])[0]
        got = fl(row)[w * j : w * j + w]
        ctx.count()
        check(np.abs(got - want).max() < 1e-9, f"{name}: tabulated value {got} of function {j} at {p} in fine triangle {t}, which is {want}")
        g = fs[j].subs(X[:2], p)
        got = np.array([float(c) for c in num.shape_and_flat(g)[1]])
        check(np.abs(got - want).max() < 1e-9, f"{name}: function {j} at {p} is {got}, should be {want}")
        wr = e.get_basis_function(j)
        got = np.array([float(c) for c in num.shape_and_flat(wr.subs(X[:2], p).get_function())[1]])
        check(np.abs(got - want).max() < 1e-9, f"{name}: get_basis_function({j}) at {p} is {got}, should be {want}")
    # the integral over a fine triangle, in components
    t = ts[0]
    tri = symfem.create_reference("triangle", ((sympy.Integer(0), sympy.Integer(0)), vs[t], vs[(t + 1) % (2 * n)]))
    mid = F(t, [(F.V[t] + F.V[(t + 1) % (2 * n)]) / 3])[0]
    area = abs(cross(F.V[t], F.V[(t + 1) % (2 * n)])) / 2
    for c in range(w):
        g = fs[j].pieces
        g = [h for q, h in g.items() if np.abs(fl(q[1]) - F.V[t]).max() < 1e-9 or np.abs(fl(q[2]) - F.V[t]).max() < 1e-9 and np.abs(fl(q[1]) - F.V[(t + 1) % (2 * n)]).max() < 1e-9]
        if n in (3, 4, 6) and g:
            got = float((g[0] if w == 1 else g[0][c]).integral(tri).as_sympy())
            ctx.count()
            check(abs(got - mid[c] * area) < 1e-9, f"{name}: integral {got} of function {j} over fine triangle {t}, should be {mid[c] * area}")


def reference(case, ctx):
    """The polygon itself, and what is refused."""
    n = case["n"]
    V = polygon(n)
    ref = symfem.create_reference(f"dual polygon({n})")
    ctx.label("reference")
    check(ref.number_of_triangles == n and ref.tdim == 2 and ref.gdim == 2 and ref.name == "dual polygon", f"reference {ref.name} {ref.number_of_triangles}")
    check(len(ref.vertices) == 2 * n and np.abs(np.array([fl(v) for v in ref.vertices]) - V).max() < 1e-12, f"dual polygon({n}): vertices {ref.vertices}")
    check(np.abs(fl(ref.origin)).max() < 1e-12 and np.abs(fl(ref.midpoint())).max() < 1e-9, f"dual polygon({n}): origin {ref.origin}, midpoint {ref.midpoint()}")
    check(ref.sub_entity_count(0) == 2 * n and ref.sub_entity_count(1) == 2 * n and ref.sub_entity_count(2) == 1 and ref.sub_entity_count(3) == 0, f"dual polygon({n}): numbers of sub-entities")
    for i in range(2 * n):
        s = ref.sub_entity(1, i)
        ctx.count()
        check(np.abs(np.array([fl(v) for v in s.vertices]) - V[[i, (i + 1) % (2 * n)]]).max() < 1e-12, f"dual polygon({n}): edge {i} is {s.vertices}")
        check(abs(float(s.volume()) - math.sin(math.pi / n)) < 1e-9, f"dual polygon({n}): length {s.volume()} of edge {i}")
    m = case["lattice"]
    for p in ref.make_lattice_float(m):
        q = fl(p)
        inside = any(cross(V[t], q) >= -1e-9 and cross(q, V[(t + 1) % (2 * n)]) >= -1e-9 and cross(V[(t + 1) % (2 * n)] - V[t], q - V[t]) >= -1e-9 for t in range(2 * n))
        ctx.count()
        check(inside, f"dual polygon({n}): lattice point {q} is outside")
    # orders and cells for which the elements are not defined
    for fam, k in (("dual", 2), ("BC", 0), ("BC", 2), ("RBC", 0), ("RBC", 2), ("dual", -1), ("Lagrange", 1)):
        try:
            symfem.create_element(f"dual polygon({n})", fam, k)
        except (ValueError, KeyError):
            continue
        check(False, f"{fam} of order {k} was created on dual polygon({n})")
    s = sympy.Integer(case["shift"])
    moved = symfem.create_reference(f"dual polygon({n})", ((s, s),) + tuple((a + s, b + s) for a, b in ref.vertices))
    check(np.abs(fl(moved.origin) - float(s)).max() < 1e-12 and np.abs(np.array([fl(v) for v in moved.vertices]) - V - float(s)).max() < 1e-9, "moved polygon")
    for fam, k in (("dual", 0), ("dual", 1), ("BC", 1), ("RBC", 1)):
        cls = type(elems.get(f"dual polygon({n})", fam, k))
        try:
            cls(moved, k)
        except NonDefaultReferenceError:
            continue
        check(False, f"{fam} of order {k} was created on a moved dual polygon")


def make_groups(tier, seed):
    q = tier == "quick"
    w = st.lists(st.lists(st.integers(1, 9), min_size=3, max_size=3), min_size=2, max_size=3)
    t = st.lists(st.integers(1, 15).map(lambda i: i / 16), min_size=2, max_size=3, unique=True)
    out = []
    for n in (3, 4, 5, 6, 7, 8, 12) if q else list(range(3, 15)) + [16, 18, 20, 24]:
        for fam, k in (("dual", 0), ("dual", 1), ("BC", 1), ("RBC", 1)):
            cost = n**2 * (5 if n in (5, 7, 9, 10, 11, 14) else 1) / 30
            out.append(Group(f"{fam}/{k}/{n}", prop, st.fixed_dictionaries({"n": st.just(n), "fam": st.just(fam), "order": st.just(k), "alias": st.integers(0, 2), "w": w, "t": t}), (3 if n in (3, 4, 6, 8) else 1) if q else 12, cost, max_s=600))
            if n <= (8 if q else 12):
                out.append(Group(f"public/{fam}/{k}/{n}", public, st.fixed_dictionaries({"n": st.just(n), "fam": st.just(fam), "order": st.just(k), "j": st.integers(0, 50), "ts": st.lists(st.integers(0, 47), min_size=3, max_size=3), "w": st.lists(st.lists(st.integers(1, 9), min_size=3, max_size=3), min_size=3, max_size=3)}), (2 if n in (3, 4, 6, 8) else 1) if q else 10, cost, max_s=600))
        out.append(Group(f"reference/{n}", reference, st.fixed_dictionaries({"n": st.just(n), "lattice": st.integers(2, 9), "shift": st.integers(1, 5)}), 2 if q else 10, 1))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C20", make_groups, RULE))

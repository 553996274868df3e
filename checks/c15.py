"""C15: the association of DOFs with sub-entities."""

import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import numpy as np
from hypothesis import strategies as st
from symfem import create_reference
from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement
from symfem.functions import AnyFunction

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

RULE = (
    "a case is an element configuration on generated vertices (where accepted), or a generated user-defined direct "
    "or enriched element; non-trivial if DOFs are attached to at least two sub-entities"
)


def floats(p):
    return np.array([float(c) for c in p])


def inside(vs, cell, p, eps=1e-9):
    """Is the point in the closed (embedded) cell?"""
    V = np.array([floats(v) for v in vs]).reshape(len(vs), len(p))
    if cell == "point":
        return np.allclose(V[0], p, atol=eps, rtol=0)
    ax = np.array([V[i] - V[0] for i in geo.AXES[cell]])
    q, *_ = np.linalg.lstsq(ax.T, p - V[0], rcond=None)
    if not np.allclose(ax.T @ q, p - V[0], atol=eps * 10, rtol=0):
        return False
    if cell in ("interval", "triangle", "tetrahedron"):
        return q.min() >= -eps and q.sum() <= 1 + eps
    if cell in ("quadrilateral", "hexahedron"):
        return q.min() >= -eps and q.max() <= 1 + eps
    if cell == "prism":
        return q.min() >= -eps and q[:2].sum() <= 1 + eps and q[2] <= 1 + eps
    return q.min() >= -eps and q[0] + q[2] <= 1 + eps and q[1] + q[2] <= 1 + eps


def kind(cell, d, e):
    if d == 0:
        return "point"
    return cell if d == geo.TDIM[cell] else geo.cell_by_nverts(d, len(e))


def laws(e, cell, vs, name, ctx, uniform=True):
    t = geo.TDIM[cell]
    n = e.space_dim
    ents, pos, dirs = e.dof_entities(), e.dof_plot_positions(), e.dof_directions()
    ctx.count(4)
    check(isinstance(n, int), f"{name}: space_dim is {n!r}")
    for what, v in (("dof_entities", ents), ("dof_plot_positions", pos), ("dof_directions", dirs)):
        check(len(v) == n, f"{name}: {what} has {len(v)} entries, space_dim is {n}")
    seen = {}
    numbers = {}
    for d in range(t + 1):
        topo = geo.entities(cell, d)
        check(e.reference.sub_entity_count(d) == len(topo), f"{name}: {e.reference.sub_entity_count(d)} sub-entities of dimension {d}")
        for k, ev in enumerate(topo):
            dofs = e.entity_dofs(d, k)
            check(list(dofs) == sorted(set(dofs)), f"{name}: entity_dofs({d}, {k}) = {dofs} is not increasing")
            for i in dofs:
                check(i not in seen and 0 <= i < n, f"{name}: DOF {i} is listed for {(d, k)} and {seen.get(i)}")
                seen[i] = (d, k)
            numbers.setdefault(kind(cell, d, ev) if d else "point", set()).add(len(dofs))
    check(len(seen) == n, f"{name}: DOFs {sorted(set(range(n)) - set(seen))} are on no sub-entity")
    for i in range(n):
        check(tuple(ents[i]) == seen[i], f"{name}: dof_entities says {ents[i]} for DOF {i}, entity_dofs {seen[i]}")
    if uniform:
        for c, m in numbers.items():
            check(len(m) == 1, f"{name}: sub-entities of type {c} carry {sorted(m)} DOFs")
    if len(set(seen.values())) < 2:
        ctx.trivial("one sub-entity")
    for i in range(n):
        d, k = seen[i]
        ev = geo.entities(cell, d)[k]
        sub = [vs[j] for j in ev]
        sc = kind(cell, d, ev)
        ctx.count()
        p = floats(pos[i])
        check(len(p) == len(vs[0]) and inside(sub, sc, p), f"{name}: plot position {tuple(pos[i])} of DOF {i} is not on sub-entity {(d, k)}")
        if dirs[i] is not None:
            v = floats(dirs[i])
            check(np.abs(v).max() > 1e-12, f"{name}: direction {dirs[i]} of DOF {i}")
            if isinstance(e, CiarletElement):
                direction(e.dofs[i], v, sub, name, i)
    if isinstance(e, CiarletElement):
        check(len(e.dofs) == n, f"{name}: {len(e.dofs)} DOFs, space_dim is {n}")
        for i, dof in enumerate(e.dofs):
            d, k = seen[i]
            ev = geo.entities(cell, d)[k]
            check(tuple(dof.entity) == (d, k), f"{name}: DOF {i} is on {dof.entity}, entity_dofs says {(d, k)}")
            p = floats(dof.dof_point())
            check(inside([vs[j] for j in ev], kind(cell, d, ev), p), f"{name}: dof_point {tuple(dof.dof_point())} of DOF {i} is not on {(d, k)}")
            check(dof.entity_dim() == d, f"{name}: entity_dim of DOF {i} is {dof.entity_dim()}")
            check(dof.entity_number() == k, f"{name}: entity_number of DOF {i} is {dof.entity_number()}")


def direction(dof, v, sub, name, i):
    """Normal DOFs point along normals, tangential ones along tangents."""
    cls = type(dof).__name__
    V = np.array([floats(p) for p in sub])
    if len(V) < 2 or V.shape[1] != len(v):
        return
    T = V[1:] - V[0]
    if cls.startswith("Tangent"):
        check(np.linalg.matrix_rank(np.vstack([T[:1], v]), tol=1e-9) == 1, f"{name}: direction {v} of DOF {i} ({cls}) is not tangential")
    elif cls.startswith(("Normal", "PointNormal")) and len(V) <= len(v) + (len(v) == 3):
        check(np.abs(T @ v).max() < 1e-9, f"{name}: direction {v} of DOF {i} ({cls}) is not normal")


def prop(case, ctx):
    cell, name, order, kw = case["cfg"]
    nm = elems.cfg_name(case["cfg"])
    if case["map"] is None:
        vs = [geo.FV(v) for v in geo.DEFAULT[cell]]
        e = elems.get(cell, name, order, kw)
    else:
        vs = gen.verts_of(case["map"], cell)
        e = elems.get(cell, name, order, kw, vertices=tuple(num.RP(v) for v in vs), fresh=True)
        nm += f" on {[tuple(map(str, v)) for v in vs]}"
    ctx.label(f"cell:{cell}", f"class:{type(e).__name__}", "moved" if case["map"] else "default")
    laws(e, cell, vs, nm, ctx, case["uniform"])


# ------------------------------------------------------------------ user-defined elements
def user(case, ctx):
    cell = case["cell"]
    t = geo.TDIM[cell]
    vs = [geo.FV(v) for v in geo.DEFAULT[cell]]
    ref = create_reference(cell)
    if case["map"] is not None:
        vs = gen.verts_of(case["map"], cell)
        ref = create_reference(cell, tuple(num.RP(v) for v in vs))
    made = []
    for ents in case["parts"]:
        el = []
        for d, k in ents:
            d %= t + 1
            el.append((d, k % len(geo.entities(cell, d))))
        if case["vector"]:
            fs = [tuple(num.X[(i + j) % 3] + i for j in range(t)) for i in range(len(el))]
        else:
            fs = [num.X[i % 3] + i for i in range(len(el))]
        made.append(UserDirect(ref, 1, fs, el, t, t if case["vector"] else 1))
    e = made[0] if len(made) == 1 else UserEnriched(made)
    ctx.label(f"cell:{cell}", f"user:{type(e).__name__}", f"dofs:{min(e.space_dim // 5 * 5, 20)}+")
    laws(e, cell, vs, f"user element {case}", ctx, False)
    # parts are numbered one after the other
    start = 0
    for m in made:
        for i, ent in enumerate(m.dof_entities()):
            check(start + i in e.entity_dofs(*ent), f"DOF {i} of a part is not DOF {start + i} of the element")
        start += m.space_dim
    check(len(e.get_basis_functions()) == e.space_dim, "number of basis functions")
    check(all(isinstance(f, AnyFunction) for f in e.get_basis_functions()), "basis functions are not functions")


class _Names:
    names = ["user element"]
    references = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
    min_order = 0
    continuity = "L2"
    value_type = "scalar"
    last_updated = "never"
    lagrange_subdegree = polynomial_subdegree = 0
    lagrange_superdegree = polynomial_superdegree = None


class UserDirect(_Names, DirectElement):
    pass


class UserEnriched(_Names, EnrichedElement):
    pass


@st.composite
def users(draw, cell):
    t = geo.TDIM[cell]
    ent = st.tuples(st.integers(0, t), st.integers(0, 11)).map(list)
    few = st.lists(ent, min_size=1, max_size=8)
    d = draw(st.integers(0, t))
    many = st.lists(st.just([d, draw(st.integers(0, 11))]), min_size=1, max_size=24)
    part = st.one_of(few, many, st.tuples(few, many).map(lambda x: x[0] + x[1]))
    return {
        "cell": cell, "map": draw(st.one_of(st.none(), gen.affine(t))), "vector": draw(st.booleans()),
        "parts": draw(st.lists(part, min_size=1, max_size=3)),
    }  # fmt: skip


def is_uniform(c):
    """Do the arguments treat all sub-entities of one type alike? (One DOF of Fortin-Soulie is in the interior
    instead of on an edge by definition.)"""
    return not set(c[3]) & {"edge_orders", "face_orders"} and c[1] != "Fortin-Soulie"


def slow(c):
    """Bubble spaces with irrational points take long to create."""
    return c[1] == "bubble" and c[2] >= (6 if c[0] == "interval" else 4) and c[3].get("variant") != "equispaced"


def make_groups(tier, seed):
    q = tier == "quick"
    out = []
    seen = set()
    for r in elems.table():
        c = elems.cfg(r)
        if c[0] not in geo.TDIM or "dual" in c[1]:
            continue
        uniform = is_uniform(c)
        direct = r["map"] == "direct"
        seen.add(elems.cfg_name(c))
        if direct and r["cost"] > (1 if q else 60) or q and slow(c):
            continue
        d = {"cfg": st.just(c), "uniform": st.just(uniform)}
        out.append(Group(f"default/{elems.cfg_name(c)}", prop, [{"cfg": c, "uniform": uniform, "map": None}], 1, 0.1))
        if isinstance(r["verts"], float) and r["verts"] < (0.3 if q else 30):
            out.append(Group(f"moved/{elems.cfg_name(c)}", prop, st.fixed_dictionaries({**d, "map": gen.affine(geo.TDIM[c[0]])}), 1 if q else 10, 0.3))
    for r in elems.creatable():
        c = elems.cfg(r)
        if c[0] in geo.TDIM and elems.cfg_name(c) not in seen and r["create"] < (0.2 if q else 60):
            uniform = is_uniform(c)
            out.append(Group(f"default/{elems.cfg_name(c)}", prop, [{"cfg": c, "uniform": uniform, "map": None}], 1, r["create"]))
    for cell in geo.DEFAULT:
        if cell != "point":
            out.append(Group(f"user/{cell}", user, users(cell), 40 if q else 1500, 3))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C15", make_groups, RULE))

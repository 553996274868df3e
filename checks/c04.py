"""C04: mapped basis functions have the declared continuity."""

import sys

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import numpy as np
from hypothesis import strategies as st

import symfem

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

RULE = (
    "a case is (element configuration, ordered pair of facets of its cell, an affine cell and an affine "
    "neighbour sharing that facet with its vertices in the same order); non-trivial if some DOF belongs "
    "to the shared facet or its sub-entities; the oracle is the numeric trace from both sides"
)

RECTANGLES = ["Bogner-Fox-Schmit"]  # only defined on rectangles (global derivatives as DOFs)


def facets(cell):
    return geo.entities(cell, geo.TDIM[cell] - 1)


def facet_pairs(cell):
    fs = facets(cell)
    return [(i, j) for i in range(len(fs)) for j in range(len(fs)) if len(fs[i]) == len(fs[j])]


def neighbour(cell, aff, i, j, extra):
    """Affine map of the neighbour whose facet j is facet i of aff(cell), with the vertices in order."""
    t = geo.TDIM[cell]
    D = [geo.FV(v) for v in geo.DEFAULT[cell]]
    fi, fj = facets(cell)[i], facets(cell)[j]
    fc = geo.cell_by_nverts(t - 1, len(fj))
    src = [D[v] for v in fj]
    dst = [aff(D[v]) for v in fi]
    ax = geo.AXES[fc]
    so, do = src[0], dst[0]
    cols_s = [[a - b for a, b in zip(src[k], so)] for k in ax]
    cols_d = [[a - b for a, b in zip(dst[k], do)] for k in ax]
    # a vertex off the facet goes to a point on the other side
    off = next(v for v in range(len(D)) if v not in fj)
    offi = next(v for v in range(len(D)) if v not in fi)
    cols_s.append([a - b for a, b in zip(D[off], so)])
    w = [geo.F(e) for e in extra]
    cols_d.append([-(a - b) * w[0] + sum(w[1 + m] * cols_d[m][k] for m in range(len(ax))) for k, (a, b) in enumerate(zip(aff(D[offi]), do))])
    S = [[cols_s[c][r] for c in range(t)] for r in range(t)]
    T = [[cols_d[c][r] for c in range(t)] for r in range(t)]
    iS = geo.inv(S)
    A = [[sum(T[r][k] * iS[k][c] for k in range(t)) for c in range(t)] for r in range(t)]
    b = tuple(d - s for d, s in zip(do, geo.matvec(A, so)))
    out = geo.Affine(A, b)
    for a, c in zip(src, dst):
        if out(a) != c:
            raise core.HarnessError("neighbour does not share the facet")
    return out


def facet_points(cell, i, n=5):
    f = facets(cell)[i]
    D = np.array([[float(c) for c in geo.DEFAULT[cell][v]] for v in f])
    rng = np.random.RandomState(7)
    return rng.dirichlet(np.ones(len(f)), size=n) @ D if len(f) > 1 else D


def derivs(funcs, tdim, order):
    """Derivatives of the functions of each total order up to `order`."""
    out = list(funcs)
    layer = list(funcs)
    for _ in range(order):
        layer = [f.diff(v) for f in layer for v in num.X[:tdim]]
        out += layer
    return out


def trace(kind, vals, ev, fc):
    """vals [function][point][component] -> [function][point][trace component]; ev: facet vertices."""
    V = np.array(ev, dtype=float)
    t = V.shape[1]
    T = [V[k] - V[0] for k in geo.AXES[fc]]
    if kind == "C":
        return vals
    if t == 1:
        return vals if "div" in kind else vals[:, :, :0]
    n = np.array([-T[0][1], T[0][0]]) if t == 2 else np.cross(T[0], T[1])
    n = n / np.linalg.norm(n)
    if kind == "H(div)":
        return np.einsum("fpi,i->fp", vals, n)[..., None]
    if kind == "H(curl)":
        return np.stack([np.einsum("fpi,i->fp", vals, tt) for tt in T], -1)
    M = vals.reshape(vals.shape[0], vals.shape[1], t, t)
    if kind == "inner H(div)":
        return np.einsum("i,fpij,j->fp", n, M, n)[..., None]
    if kind == "inner H(curl)":
        return np.stack([np.einsum("i,fpij,j->fp", a, M, b) for a in T for b in T], -1)
    raise core.HarnessError(kind)


def side_evaluators(e, aff, cell, order):
    vs = tuple(num.RP(v) for v in aff.verts(cell))
    fs = e.map_to_cell(vs)
    # functions recomputed on the cell have badly scaled monomial coefficients
    lam = num.lam_mp if order > 0 else num.lam
    return num.Ev(derivs(fs, geo.TDIM[cell], order), lam=lam), len(fs)


def prop(case, ctx):
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    t = geo.TDIM[cell]
    i, j = case["pair"]
    cont = e.continuity.replace("{order}", str(e.order))
    ctx.label(f"cell:{cell}", f"class:{type(e).__name__}", f"continuity:{cont}")
    integral = cont.startswith("integral ")
    kind = cont.replace("integral ", "")
    dorder = 0
    if kind[0] == "C":
        dorder, kind = int(kind[1:]), "C"
    a1 = gen.aff_of(case["map"])
    a2 = neighbour(cell, a1, i, j, case["extra"])
    fi, fj = facets(cell)[i], facets(cell)[j]
    fc = geo.cell_by_nverts(t - 1, len(fi))
    fverts = [[float(c) for c in a1(geo.DEFAULT[cell][v])] for v in fi]
    if integral:
        ref, w, _ = geo.quad_on([geo.DEFAULT[cell][v] for v in fi], fc, 2 * e.order + 6)
        pts = a1.np(ref)
    else:
        pts = a1.np(facet_points(cell, i))
    sides = []
    for aff, ent in ((a1, i), (a2, j)):
        ev, n = side_evaluators(e, aff, cell, dorder)
        # stay on the inside for piecewise functions
        vals = ev(pts)
        tr = trace(kind, vals, fverts, fc)
        if integral:
            tr = np.einsum("fpc,p->fc", tr, w)[:, None, :]
        k = len(vals) // n
        nd = [tr[:n]]
        pos = n
        width = n
        for _ in range(dorder):  # order in derivs: function-major
            width *= t
            nd.append(tr[pos : pos + width].reshape(n, width // n, tr.shape[1], -1).transpose(0, 2, 1, 3).reshape(n, tr.shape[1], -1))
            pos += width
        sides.append(np.concatenate(nd, axis=2))
        assert k * n == len(vals)
    A, B = sides
    scale = max(1.0, np.abs(A).max() if A.size else 0, np.abs(B).max() if B.size else 0)
    # matching DOFs
    match = {}
    loc_i = {v: k for k, v in enumerate(fi)}
    loc_j = {v: k for k, v in enumerate(fj)}
    for d in range(t):
        by_local = {}
        for m, ent in enumerate(geo.entities(cell, d)):
            if set(ent) <= set(fj):
                by_local[frozenset(loc_j[v] for v in ent)] = m
        for m, ent in enumerate(geo.entities(cell, d)):
            if set(ent) <= set(fi):
                da, db = e.entity_dofs(d, m), e.entity_dofs(d, by_local[frozenset(loc_i[v] for v in ent)])
                if case.get("uneven") and len(da) != len(db):
                    ctx.trivial("different orders on the two facets")
                    return
                check(len(da) == len(db), f"{len(da)} and {len(db)} DOFs on the shared entity of dimension {d}")
                match.update(zip(da, db))
    if not match:
        ctx.trivial("no DOFs on the facet")
    for p, q in match.items():
        ctx.count()
        d = np.abs(A[p] - B[q]).max() if A[p].size else 0
        check(d <= 1e-8 * scale, f"{cont}: functions {p} (facet {i}) and {q} (facet {j}) of {elems.cfg_name(case['cfg'])} have different traces, difference {d}")
    for S, att, f in ((A, set(match), i), (B, set(match.values()), j)):
        for p in range(len(S)):
            if p not in att and S[p].size:
                ctx.count()
                d = np.abs(S[p]).max()
                check(d <= 1e-8 * scale, f"{cont}: function {p} of {elems.cfg_name(case['cfg'])} is not attached to facet {f} but its trace there is {d}")


@st.composite
def cases(draw, cfg):
    cell = cfg[0]
    t = geo.TDIM[cell]
    pair = draw(st.sampled_from(facet_pairs(cell)))
    m = draw(gen.affine(t))
    shears = [draw(st.sampled_from([0, 1, -1, "1/2"])) for _ in range(t - 1)]
    if cfg[1] in RECTANGLES:
        p = draw(st.permutations(range(t)))
        m["A"] = [[draw(gen.nonzero()) if c == p[r] else 0 for c in range(t)] for r in range(t)]
        shears = [0] * (t - 1)
    return {
        "cfg": cfg, "map": m, "pair": list(pair), "uneven": cfg[1] == "transition",
        "extra": [draw(st.sampled_from([1, "1/2", 2, 3]))] + shears,
    }  # fmt: skip


# elements whose functions are recomputed on the cell (a DOF has no mapping)
RECOMPUTED = [
    "Bell", "Bogner-Fox-Schmit", "Hermite", "Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher", "Taylor",
    "Wu-Xu", "direct serendipity", "Argyris",  # and, with a known finding:
    "enriched Galerkin", "enriched vector Galerkin",
]  # fmt: skip


def recomputed(cfg):
    return cfg[1] in RECOMPUTED or (cfg[1] == "Morley-Wang-Xu" and cfg[2] > 1)


def mapped_prop(case, ctx):
    """The mapping of the element, applied to any functions, keeps what its continuity compares."""
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    t = geo.TDIM[cell]
    cont = e.continuity.replace("{order}", str(e.order))
    kind = cont.replace("integral ", "")
    kind = "C" if kind[0] == "C" else kind
    ctx.label(f"cell:{cell}", f"class:{type(e).__name__}", f"continuity:{cont}")
    if kind == "L2":
        ctx.trivial("nothing is compared")
        return
    shape = getattr(e, "range_shape", None)
    n = e.space_dim
    size = e.range_dim
    if kind.startswith("inner") or shape is not None:
        shape = (t, t) if shape is None else tuple(shape)
    polys = [gen.psym(p) for p in case["polys"]]
    basis = []
    for k in range(n):
        ps = [polys[(k + 2 * m) % len(polys)] + (k % 5) * num.X[0] * m for m in range(size)]
        if size == 1:
            f = symfem.functions.ScalarFunction(ps[0])
        elif shape is not None:
            f = symfem.functions.MatrixFunction([ps[r * shape[1] : (r + 1) * shape[1]] for r in range(shape[0])])
        else:
            f = symfem.functions.VectorFunction(ps)
        basis.append(f)
    aff = gen.aff_of(case["map"])
    vs = tuple(num.RP(v) for v in aff.verts(cell))
    mapped = e.map_to_cell(vs, basis=list(basis))
    check(len(mapped) == n, f"{len(mapped)} functions were mapped, not {n}")
    evb, evm = num.Ev(basis), num.Ev(mapped)
    J = np.array([[float(c) for c in r] for r in aff.A])
    for i in range(len(facets(cell))) if t > 1 else [0]:
        if t == 1:
            return
        ref = facet_points(cell, i, 4)
        a, b = evb(ref), evm(aff.np(ref))
        f = facets(cell)[i]
        fc = geo.cell_by_nverts(t - 1, len(f))
        V = np.array([[float(c) for c in geo.DEFAULT[cell][v]] for v in f])
        T = [V[k] - V[0] for k in geo.AXES[fc]]
        nr = np.array([-T[0][1], T[0][0]]) if t == 2 else np.cross(T[0], T[1])
        nm = np.linalg.det(J) * np.linalg.inv(J).T @ nr
        Tm = [J @ v for v in T]
        if kind == "C":
            A, B = a, b
        elif kind == "H(div)":
            A, B = a @ nr, b @ nm
        elif kind == "H(curl)":
            A, B = np.stack([a @ v for v in T], -1), np.stack([b @ v for v in Tm], -1)
        else:
            a = a.reshape(n, -1, t, t)
            b = b.reshape(n, -1, t, t)
            if kind == "inner H(div)":
                A, B = np.einsum("i,fpij,j->fp", nr, a, nr), np.einsum("i,fpij,j->fp", nm, b, nm)
            elif kind == "inner H(curl)":
                A = np.stack([np.einsum("i,fpij,j->fp", v, a, w) for v in T for w in T], -1)
                B = np.stack([np.einsum("i,fpij,j->fp", v, b, w) for v in Tm for w in Tm], -1)
            else:
                raise core.HarnessError(kind)
        for k in range(n):
            ctx.count()
            d = np.abs(A[k] - B[k]).max()
            sc = max(1.0, np.abs(A[k]).max(), np.abs(b[k]).max() * np.abs(nm).max() ** 2)
            check(d <= 1e-9 * sc, f"{cont}: the map to the cell changes the trace of function {k} of {elems.cfg_name(case['cfg'])} on facet {i} by {d}")


@st.composite
def mapped_cases(draw, cfg):
    t = geo.TDIM[cfg[0]]
    return {
        "cfg": cfg, "map": draw(gen.affine(t)),
        "polys": [draw(gen.polynomial(t, 3, 3)) for _ in range(5)],
    }  # fmt: skip


def make_groups(tier, seed):
    out = []
    lim = 1.0 if tier == "quick" else 1e9
    for r in elems.table():
        c = elems.cfg(r)
        if r["continuity"] == "L2" or not isinstance(r["mapto"], float):
            continue
        cost = r["cost"] + 2 * r["mapto"]
        if cost > lim:
            continue
        n = (4 if cost < 0.1 else 2) if tier == "quick" else (25 if cost < 0.5 else 5)
        out.append(Group(f"trace/{elems.cfg_name(c)}", prop, cases(c), n, r["cost"] + 2 * r["mapto"] * n))
    l2 = {r["name"] for r in elems.table() if r["continuity"] == "L2"}
    for r in elems.table() + elems.creatable():
        c = elems.cfg(r)
        cr = r.get("create", 0.2)
        if geo.TDIM[c[0]] == 1 or r["name"] in l2 or recomputed(c):
            continue
        if tier == "quick" and (r["dim"] > 100 or cr > 0.5):
            continue
        if tier == "quick" and c[1] == "bubble" and c[2] > 3 and c[3].get("variant") != "equispaced":
            continue  # slow to create
        out.append(Group(f"mapped/{elems.cfg_name(c)}", mapped_prop, mapped_cases(c), 1 if tier == "quick" else 5, cr + 0.02 * r["dim"]))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C04", make_groups, RULE))

"""C13: creation of elements and references, names and aliases, add_element."""

import json
import os
import sys

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import child, core, elems, gen, geo, num
from vlib.core import Group, check

import numpy as np
import sympy

import symfem
from symfem.finite_element import CiarletElement, FiniteElement
from symfem.functionals import PointEvaluation
from symfem.symbols import x

RULE = (
    "a case is a creation request (any documented name, cell, order, arguments and vertices in several forms), "
    "an invalid request, or a sequence of add_element and create_element calls; non-trivial unless the request "
    "is the main name on the default cell without arguments; a violation is a wrong object, a wrong refusal or acceptance"
)
REG = json.load(open(os.path.join(boot.VERIF, "data", "registry.json")))
CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
ALLCELLS = ["point"] + CELLS
ENTRY = {(r["cell"], n): r for r in REG for n in r["names"]}


def fmt_vertices(vs, form):
    if form == "list":
        return [[num.R(c) for c in v] for v in vs]
    if form == "ints" and all(c.denominator == 1 for v in vs for c in v):
        return [tuple(int(c) for c in v) for v in vs]
    if form == "float" and all(c.denominator in (1, 2, 4) for v in vs for c in v):
        return tuple(tuple(num.R(c) for c in v) for v in vs)
    return tuple(tuple(num.R(c) for c in v) for v in vs)


def dofsig(d):
    out = [type(d).__name__]
    for f in ("entity_dim", "entity_number", "dof_point", "dof_direction"):
        try:
            v = getattr(d, f)()
        except Exception as e:
            v = type(e).__name__
        out.append(str(v))
    out.append(str(d.mapping))
    return out


def signature(e, basis):
    """What can be seen of an element."""
    out = [type(e).__name__, e.order, e.reference.name, str(e.reference.vertices), e.space_dim, str(sorted(e.init_kwargs().items())), list(e.names)]
    if isinstance(e, CiarletElement):
        out.append([dofsig(d) for d in e.dofs])
        out.append([str(num.raw(p)) for p in e.get_polynomial_basis()] if all(num.pieces(p) is None for p in e.get_polynomial_basis()) else None)
    if basis:
        out.append(num.Ev(e.get_basis_functions())(num.sample_points(e.reference.name, 3)))
    return out


def same_sig(a, b, what):
    for u, v in zip(a, b):
        ok = num.allclose(u, v) if isinstance(u, np.ndarray) else u == v
        check(ok, f"{what}: {str(u)[:200]} against {str(v)[:200]}")


def is_requested(e, cell, name, order, kw, vs):
    check(isinstance(e, FiniteElement), f"{e!r} is not an element")
    check(e.reference.name == cell, f"asked for a {cell}, got a {e.reference.name}")
    check(e.order == order, f"asked for order {order}, got {e.order}")
    check(name in type(e).names, f"asked for {name!r}, got an element named {type(e).names}")
    want = tuple(geo.FV(v) for v in (vs if vs is not None else geo.DEFAULT[cell]))
    check(tuple(geo.FV(v) for v in e.reference.vertices) == want, f"asked for vertices {vs}, got {e.reference.vertices}")
    got = e.init_kwargs()
    for k, v in (kw or {}).items():
        check(k in got and got[k] == v, f"asked for {k}={v!r}, init_kwargs has {got}")


# ------------------------------------------------------------------ valid requests
def prop_valid(case, ctx):
    cell, main, order, kw = case["cfg"]
    entry = next(r for r in REG if r["cell"] == cell and main in r["names"])
    name = entry["names"][case["alias"] % len(entry["names"])]
    ctx.label(f"cell:{cell}")
    vs = None
    if case["map"]:
        vs = gen.verts_of(case["map"], cell)
        ctx.label("custom vertices", f"vertices:{case['form']}")
    if name == main and vs is None and not kw:
        ctx.trivial("main name, default cell")
    given = fmt_vertices(vs, case["form"]) if vs is not None else None
    before = str(given)
    e = symfem.create_element(cell, name, order, **({"vertices": given} if given is not None else {}), **kw)
    check(str(given) == before, "create_element changed the vertices passed in")
    is_requested(e, cell, name, order, kw, vs)
    if case["dim"] is not None:
        check(e.space_dim == case["dim"], f"{elems.cfg_name(case['cfg'])} has {e.space_dim} DOFs, not {case['dim']}")
    basis = case["basis"] and vs is None
    s = signature(e, basis)
    ctx.count(len(s))
    # every alias
    other = entry["names"][(case["alias"] + 1) % len(entry["names"])]
    e2 = symfem.create_element(cell, other, order, **({"vertices": given} if given is not None else {}), **kw)
    same_sig(s, signature(e2, basis), f"{name!r} and {other!r} on a {cell} differ")
    # again from its own arguments
    k = e.init_kwargs()
    e3 = symfem.create_element(e.reference.name, name, e.order, vertices=e.reference.vertices, **k)
    same_sig(s, signature(e3, basis), f"{name!r} created again with its init_kwargs {k} differs")
    check(e.init_kwargs() == k and e3.init_kwargs() == k, "init_kwargs is not reproduced")


@st.composite
def valid_cases(draw, cfg, dim, mapped, basis):
    c = {"cfg": cfg, "alias": draw(st.integers(0, 4)), "map": None, "form": "tuple", "dim": dim, "basis": basis}
    if mapped and draw(st.booleans()):
        c["map"] = draw(gen.affine(geo.TDIM[cfg[0]]))
        c["form"] = draw(st.sampled_from(["tuple", "list", "ints"]))
    return c


# ------------------------------------------------------------------ invalid requests
def allowed(cell, name, order):
    r = ENTRY.get((cell, name))
    return r is not None and (r["lo"] is None or order >= r["lo"]) and (r["hi"] is None or order <= r["hi"])


def refused(f, kinds, what):
    try:
        got = f()
    except kinds:
        return
    except Exception as e:
        raise core.Violation(f"{what} raised {type(e).__name__}: {e}, not {kinds.__name__}")
    raise core.Violation(f"{what} returned {got!r}")


def prop_invalid(case, ctx):
    cell, name, order = case["cell"], case["name"], case["order"]
    known = cell.split("(")[0] in ALLCELLS + ["dual polygon"]
    key = (cell.split("(")[0], name)
    if allowed(key[0], name, order):
        ctx.trivial("valid request")
        return
    if not known:
        ctx.label("unknown cell")
        refused(lambda: symfem.create_reference(cell), ValueError, f"create_reference({cell!r})")
    elif key not in ENTRY:
        ctx.label("unknown name" if not any(n == name for _, n in ENTRY) else "cell outside the family")
    else:
        ctx.label("order outside the range")
    refused(lambda: symfem.create_element(cell, name, order), ValueError, f"create_element({cell!r}, {name!r}, {order})")


def prop_kwarg(case, ctx):
    cell, name, order, kw = case["cfg"]
    ctx.label("unknown argument")
    refused(lambda: symfem.create_element(cell, name, order, **{case["key"]: 1}, **kw), Exception, f"create_element{tuple(case['cfg'][:3])} with argument {case['key']}=1")


def prop_gdim(case, ctx):
    """Cells embedded in a space of higher dimension cannot carry elements."""
    cell = case["cell"]
    vs = fmt_vertices(gen.verts_of(case["map"], cell), "tuple")
    ref = symfem.create_reference(cell, vs)
    check(ref.gdim == len(vs[0]) and ref.tdim == geo.TDIM[cell], f"{cell} in {len(vs[0])} dimensions has tdim {ref.tdim}, gdim {ref.gdim}")
    entry = next(r for r in REG if r["cell"] == cell and case["name"] in r["names"])
    order = max(entry["lo"] or 0, 1)
    refused(lambda: symfem.create_element(cell, case["name"], order, vertices=vs), ValueError, f"{case['name']} on an embedded {cell}")


@st.composite
def invalid_cases(draw):
    names = sorted({n for r in REG for n in r["names"]})
    cell = draw(st.one_of(st.sampled_from(ALLCELLS), st.sampled_from(ALLCELLS), st.sampled_from(["Triangle", "tri", "", "square", "polygon", "cube", "triangle "])))
    what = draw(st.integers(0, 3))
    if what == 0:
        name = draw(st.one_of(st.sampled_from(["", "lagrange", "Lagrange ", "Lagrang", "Q1", "CG", "DG", "P1", "RT0", "hermite", "Argyris5", "nedelec"]), st.text("ABCDNPQRSTacdeglr -12", max_size=6)))
    else:
        name = draw(st.sampled_from(names))
    if what == 3:
        r = draw(st.sampled_from([r for r in REG if r["lo"] or r["hi"] is not None]))
        cell, name = r["cell"], draw(st.sampled_from(r["names"]))
        if cell == "dual polygon":
            cell = "dual polygon(4)"
        lo, hi = r["lo"], r["hi"]
        below = list(range(-3, lo)) if lo is not None else []
        above = list(range(hi + 1, hi + 5)) if hi is not None else []
        return {"cell": cell, "name": name, "order": draw(st.sampled_from((below + above) or [0]))}
    return {"cell": cell, "name": name, "order": draw(st.integers(-2, 7))}


@st.composite
def gdim_cases(draw):
    cell = draw(st.sampled_from(["interval", "triangle", "quadrilateral"]))
    d = geo.TDIM[cell]
    return {"cell": cell, "map": draw(gen.affine(d, draw(st.integers(d + 1, 3)))), "name": draw(st.sampled_from([n for c, n in sorted(ENTRY) if c == cell]))}


# ------------------------------------------------------------------ references
def prop_ref(case, ctx):
    cell = case["cell"]
    ctx.label(f"reference:{cell}")
    vs = gen.verts_of(case["map"], cell) if case["map"] else None
    if vs is None:
        ctx.trivial("default vertices")
        r = symfem.create_reference(cell)
    else:
        r = symfem.create_reference(cell, fmt_vertices(vs, case["form"])) if case["pos"] else symfem.create_reference(cell, vertices=fmt_vertices(vs, case["form"]))
    want = tuple(geo.FV(v) for v in (vs or geo.DEFAULT[cell]))
    check(r.name == cell and r.tdim == geo.TDIM[cell], f"create_reference({cell!r}) is a {r.name} of dimension {r.tdim}")
    check(tuple(geo.FV(v) for v in r.vertices) == want, f"create_reference({cell!r}) has vertices {r.vertices}")
    check(tuple(geo.FV(v) for v in r.reference_vertices) == tuple(geo.FV(v) for v in geo.DEFAULT[cell]), "reference_vertices changed")
    d = symfem.create_reference(cell)
    check((r == d) == (want == tuple(geo.FV(v) for v in geo.DEFAULT[cell])), "equality with the default reference")
    check(r.default_reference() == d and d.default_reference() == d, "default_reference")
    if cell != "point" and case["bad"]:
        # a wrong number of vertices
        bad = list(fmt_vertices(want, "list"))
        bad = bad[:-1] if case["bad"] == 1 else bad + [bad[-1]]
        refused(lambda: symfem.create_reference(cell, bad), Exception, f"create_reference({cell!r}) with {len(bad)} vertices")


def prop_poly_ref(case, ctx):
    n = case["n"]
    ctx.label("dual polygon")
    r = symfem.create_reference(f"dual polygon({n})")
    check(r.name == "dual polygon" and r.number_of_triangles == n, f"dual polygon({n}) has {r.number_of_triangles} triangles")
    check(len(r.vertices) == 2 * n, f"dual polygon({n}) has {len(r.vertices)} vertices")
    e = symfem.create_element(f"dual polygon({n})", case["name"], 1)
    check(e.reference == r and e.order == 1 and case["name"] in e.names, "dual element on another polygon")


@st.composite
def ref_cases(draw):
    cell = draw(st.sampled_from(ALLCELLS))
    d = geo.TDIM[cell]
    m = draw(gen.affine(d, draw(st.integers(d, 3)))) if cell != "point" and draw(st.integers(0, 3)) else None
    return {"cell": cell, "map": m, "form": draw(st.sampled_from(["tuple", "list", "ints"])), "pos": draw(st.booleans()), "bad": draw(st.integers(0, 2))}


# ------------------------------------------------------------------ add_element histories
def build(spec):
    """A user-defined element class (one point evaluation; any cell)."""

    class User(CiarletElement):
        names = list(spec["names"])
        references = list(spec["cells"])
        min_order = spec["min"]
        max_order = spec["max"]
        tag = spec["tag"]
        cache = False
        value_type = "scalar"
        continuity = "L2"
        last_updated = "2024.01"

        def __init__(self, reference, order, shift=0):
            super().__init__(reference, order, [sympy.Integer(1)], [PointEvaluation(reference, reference.midpoint(), entity=(reference.tdim, 0))], reference.tdim, 1)
            self.shift = shift

        def init_kwargs(self):
            return {"shift": self.shift}

    if spec["min"] is None:
        del User.min_order
    if spec["max"] is None:
        del User.max_order
    return User


def bound_of(b, cell):
    return b.get(cell) if isinstance(b, dict) else b


def history(case):
    """Runs in a child process; returns labels, raises Violation."""
    labels = []
    model = {}  # (cell, name) -> spec
    classes = {}
    probes = [(c, n) for c, n in sorted(ENTRY)][:: max(1, len(ENTRY) // 12)]

    def existing():
        for c, n in probes:
            if (c, n) in model:
                continue
            r = ENTRY[c, n]
            cc = f"{c}(4)" if c == "dual polygon" else c
            o = r["lo"] or 0
            if r["hi"] is not None and c != "dual polygon" and n == "transition":
                continue
            try:
                e = symfem.create_element(cc, n, o, **({"edge_orders": [1, 1, 1]} if n == "transition" and c == "triangle" else {"edge_orders": [1] * 6, "face_orders": [1] * 4} if n == "transition" else {}))
            except NotImplementedError:
                continue
            check(type(e).__module__.startswith("symfem") and n in e.names and e.reference.name == c, f"{n} on a {c} is now {type(e)} {e.names}")

    for step in case["steps"]:
        op = step["op"]
        if op == "add":
            spec = step["spec"]
            key = json.dumps(spec, sort_keys=True)
            cls = classes.setdefault(key, build(spec))
            clash = [(c, n) for c in spec["cells"] for n in spec["names"] if (c, n) in ENTRY or ((c, n) in model and model[c, n] is not cls)]
            try:
                symfem.add_element(cls)
            except AssertionError:
                if not clash:
                    raise core.Violation(f"add_element refused the new names {spec['names']} on {spec['cells']}")
                labels.append("clash refused")
                # what the failed call registered before it noticed is not specified
                return labels + final(model, existing)
            except Exception as e:
                raise core.Violation(f"add_element raised {type(e).__name__}: {e}")
            if clash:
                raise core.Violation(f"add_element replaced {clash}")
            labels.append("added again" if any(v is cls for v in model.values()) else "added")
            for c in spec["cells"]:
                for n in spec["names"]:
                    model[c, n] = cls
        elif op == "bad":
            bad = {"int": 3, "str": "Lagrange", "object": object, "list": list, "instance": None, "base": FiniteElement, "nameless": build(dict(step["spec"], names=[])), "function": build}[step["what"]]
            if step["what"] == "instance":
                bad = symfem.create_element("triangle", "Lagrange", 1)
            try:
                symfem.add_element(bad)
            except TypeError:
                labels.append("not an element refused")
            else:
                raise core.Violation(f"add_element accepted {step['what']}")
        else:
            query(model, step, labels)
    return labels + final(model, existing)


def query(model, step, labels):
    cell, name, order = step["cell"], step["name"], step["order"]
    cls = model.get((cell, name))
    kw = {"shift": step["shift"]} if step["shift"] else {}
    try:
        e = symfem.create_element(cell, name, order, **(kw if cls else {}))
    except ValueError:
        e = None
    if cls is None:
        if (cell, name) in ENTRY:
            check((e is not None) == allowed(cell, name, order) or name == "transition", f"{name} of order {order} on a {cell}: {e}")
            return
        check(e is None, f"{name!r} on a {cell}, never added, gave {e}")
        labels.append("unknown refused")
        return
    lo, hi = bound_of(getattr(cls, "min_order", None), cell), bound_of(getattr(cls, "max_order", None), cell)
    ok = (lo is None or order >= lo) and (hi is None or order <= hi)
    check((e is not None) == ok, f"{name!r} of order {order} on a {cell} with range {lo, hi}: {e}")
    if ok:
        labels.append("user element created")
        check(type(e) is cls, f"{name!r} on a {cell} gave {type(e)}")
        check(e.order == order and e.reference.name == cell and e.init_kwargs() == {"shift": step["shift"] if kw else 0}, f"{name!r} has order {e.order}, cell {e.reference.name}, {e.init_kwargs()}")
        check(str(e.get_basis_functions()[0]) == "1", f"basis of the user element is {e.get_basis_functions()}")
        m = e.reference.midpoint()
        check(list(e.tabulate_basis([m])[0]) == [1] and len(e.get_basis_functions()) == 1, "tabulation of the user element")


def final(model, existing):
    labels = []
    for (c, n), cls in sorted(model.items(), key=lambda kv: kv[0]):
        lo = bound_of(getattr(cls, "min_order", None), c)
        hi = bound_of(getattr(cls, "max_order", None), c)
        o = lo if lo is not None else hi if hi is not None else 2
        if lo is not None and hi is not None and lo > hi:
            continue
        e = symfem.create_element(c, n, o)
        check(type(e) is cls and e.order == o, f"{n!r} on a {c} gave {type(e)} of order {e.order}")
    existing()
    return labels


def prop_history(case, ctx):
    out = child.run(history, case)
    if out[0] == "ok":
        ctx.label(*set(out[1]))
        ctx.count(len(out[1]))
        if not any(lab in ("added", "clash refused") for lab in out[1]):
            ctx.trivial("nothing added")
        return
    raise core.Violation(f"{out[1]}: {out[2]}" if out[1] != "Violation" else out[2])


USER = ["my element", "My Element", "ME", "Lagrange2", "U1", "U 2"]


@st.composite
def specs(draw):
    names = draw(st.lists(st.sampled_from(USER), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 3)) == 0:
        names.insert(draw(st.integers(0, len(names))), draw(st.sampled_from(["Regge", "Argyris", "Bell", "dPc", "Q"])))
    cells = draw(st.lists(st.sampled_from(CELLS), min_size=1, max_size=4, unique=True))

    def bound(a, b):
        k = draw(st.integers(0, 2))
        return None if k == 0 else draw(st.integers(a, b)) if k == 1 else {c: draw(st.integers(a, b)) for c in cells if draw(st.booleans())}

    return {"names": names, "cells": cells, "min": bound(0, 3), "max": bound(1, 5), "tag": draw(st.integers(0, 2))}


@st.composite
def histories(draw):
    pool = [draw(specs()) for _ in range(draw(st.integers(1, 3)))]
    steps = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.integers(0, 7))
        if k < 3:
            steps.append({"op": "add", "spec": draw(st.sampled_from(pool))})
        elif k == 3:
            steps.append({"op": "bad", "spec": pool[0], "what": draw(st.sampled_from(["int", "str", "object", "list", "instance", "base", "nameless", "function"]))})
        else:
            steps.append({"op": "create", "cell": draw(st.sampled_from(CELLS)), "name": draw(st.sampled_from(USER + pool[0]["names"])), "order": draw(st.integers(0, 6)), "shift": draw(st.integers(0, 2))})
    return {"steps": steps}


def make_groups(tier, seed):
    T = tier == "thorough"
    out = []
    lim = 5.0 if T else 0.4
    for r in elems.select(lim):
        c = elems.cfg(r)
        if c[0].startswith("dual"):
            continue
        mapped = isinstance(r["verts"], float) and r["verts"] <= lim and r["doft"]
        out.append(Group(f"valid/{elems.cfg_name(c)}", prop_valid, valid_cases(c, r["dim"], bool(mapped), r["cost"] < 0.05), 10 if T else 2, r["cost"]))
    k = 20 if T else 1
    out.append(Group("invalid", prop_invalid, invalid_cases(), 800 * k, 5))
    seen = set()
    kc = []
    for r in elems.select(lim):
        if (r["cell"], r["name"]) not in seen:
            seen.add((r["cell"], r["name"]))
            kc += [{"cfg": elems.cfg(r), "key": key} for key in ("foo", "varient", "degree")]
    out.append(Group("unknown argument", prop_kwarg, kc, 1, 5))
    out.append(Group("embedded", prop_gdim, gdim_cases(), 40 * k, 2))
    out.append(Group("reference", prop_ref, ref_cases(), 250 * k, 5))
    for n in range(2, 9 if T else 7):
        out.append(Group(f"dual polygon/{n}", prop_poly_ref, [{"n": n, "name": m} for m in ("dual polynomial", "dual P", "dual", "Buffa-Christiansen", "BC", "rotated Buffa-Christiansen", "RBC")], 1, 2))
    for i in range(4):
        out.append(Group(f"add_element/{i}", prop_history, histories(), 14 * k, 10))
    # every documented name exists on its cell
    return out


if __name__ == "__main__":
    sys.exit(core.main("C13", make_groups, RULE))

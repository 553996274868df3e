"""C19: results do not depend on call history and never mutate shared state."""

import copy
import json
import os
import pickle
import re
import shutil
import sys
import tempfile
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, HarnessError, Violation, check

import numpy as np
import sympy

import symfem
from symfem.functionals import BaseFunctional
from symfem.functions import AnyFunction, ScalarFunction, VectorFunction, parse_function_input
from symfem.piecewise_functions import PiecewiseFunction
from symfem.references import Reference

RULE = (
    "a case is a history of public calls on a pool of elements, references and functions (several created with the same "
    "arguments); every answer is compared with the answer of a fresh object in a forked process that makes only this call; "
    "non-trivial if at least two calls gave an answer"
)
PTS = {
    1: [(Fr(1, 7),), (Fr(5, 8),)],
    2: [(Fr(1, 7), Fr(2, 9)), (Fr(5, 8), Fr(1, 9)), (Fr(1, 6), Fr(7, 11))],
    3: [(Fr(1, 7), Fr(2, 9), Fr(1, 5)), (Fr(5, 8), Fr(1, 9), Fr(1, 8)), (Fr(1, 11), Fr(1, 6), Fr(7, 11))],
}
EXTRA = (Fr(2, 7), Fr(1, 3), Fr(3, 8))


def rat(q):
    q = Fr(q)
    return sympy.Rational(q.numerator, q.denominator)


# ------------------------------------------------------------------ answers in a comparable form
def expr_value(v, subs):
    v = sympy.sympify(v)
    if v.free_symbols:
        v = v.subs(subs)
    if v.free_symbols:
        return ["open", sorted(map(str, v.free_symbols))]
    if v.is_Boolean or not v.is_number:
        return str(v)
    if v in (sympy.oo, -sympy.oo, sympy.nan, sympy.zoo):
        return str(v)
    c = complex(sympy.N(v, 20))
    return c.real if c.imag == 0 else [c.real, c.imag]


def canon(o, d=3, depth=0):
    """JSON-like form of an answer: numbers are compared with a tolerance, everything else exactly."""
    if depth > 8:
        return "deep"
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, (int, float)):
        return float(o)
    if isinstance(o, PiecewiseFunction):
        out = []
        for shape, g in o.pieces.items():
            out.append([canon(shape, d, depth + 1), canon(g, d, depth + 1)])
        return ["piecewise", o.tdim, out]
    if isinstance(o, AnyFunction):
        kind = "s" if o.is_scalar else "v" if o.is_vector else "m"
        return [kind, canon(o.as_sympy(), d, depth + 1)]
    if isinstance(o, (sympy.Matrix, sympy.ImmutableMatrix)):
        return ["matrix", list(o.shape), [canon(i, d, depth + 1) for i in o]]
    if isinstance(o, sympy.Basic) and not isinstance(o, sympy.Tuple):
        out = []
        for p in PTS[3][:2]:
            s = {x: rat(c) for x, c in zip(num.X, p)}
            s.update({t: rat(c) for t, c in zip(num.T, EXTRA)})
            out.append(expr_value(o, s))
        return out
    if isinstance(o, (list, tuple, sympy.Tuple)):
        return [canon(i, d, depth + 1) for i in o]
    if isinstance(o, dict):
        return sorted(([str(k), canon(v, d, depth + 1)] for k, v in o.items()), key=lambda i: i[0])
    if isinstance(o, np.ndarray):
        return canon(o.tolist(), d, depth + 1)
    if isinstance(o, np.generic):
        return canon(o.item(), d, depth + 1)
    if isinstance(o, Reference):
        return ["reference", o.name, canon(o.vertices, d, depth + 1), canon(o.axes, d, depth + 1), canon(o.origin, d, depth + 1)]
    if isinstance(o, BaseFunctional):
        return ["functional", type(o).__name__, list(o.entity), o.get_tex()[0]]
    if isinstance(o, symfem.finite_element.FiniteElement):
        return ["element", o.name, o.order, o.space_dim, canon(o.reference, d, depth + 1)]
    return ["object", type(o).__name__]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or a != a and b != b
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ objects
def make(spec):
    """Create the object a spec describes, from scratch."""
    k = spec[0]
    if k == "element":
        cell, name, order, kw = spec[1]
        return symfem.create_element(cell, name, order, **kw)
    if k == "element at":
        (cell, name, order, kw), aff = spec[1], spec[2]
        return symfem.create_element(cell, name, order, vertices=verts(aff, cell), **kw)
    if k == "reference":
        cell, aff = spec[1], spec[2]
        return symfem.create_reference(cell, verts(aff, cell) if aff else None)
    if k == "function":
        return make_function(spec[1])
    raise HarnessError(str(k))


def verts(aff, cell):
    return [tuple(rat(str(i)) if isinstance(i, (int, str)) else rat(i) for i in v) for v in gen.verts_of(aff, cell)]


def make_function(f):
    if f[0] == "piecewise":
        c = rat(str(f[1]))
        third = (sympy.Rational(1, 3), sympy.Rational(1, 3))
        corners = [(0, 0), (1, 0), (0, 1)]
        return PiecewiseFunction({(corners[0], corners[1], third): gen.psym(f[2][0]) + c, (corners[0], corners[2], third): gen.psym(f[2][1]),
                                  (corners[1], corners[2], third): gen.psym(f[2][2])}, 2)  # fmt: skip
    comps = [gen.psym(p) for p in f[1]]
    return parse_function_input(comps[0] if f[0] == "scalar" else tuple(comps))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c19-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def picture(plot):
    with Scratch() as d:
        a, b = os.path.join(d, "a.svg"), os.path.join(d, "b.tex")
        plot([a, b])
        return [round_numbers(open(a).read()), round_numbers(open(b).read())]


def round_numbers(s):
    """Numbers of a picture to 6 digits (rounding errors of an evaluation order are not a difference)."""
    return re.sub(r"-?\d+\.\d+(e[-+]?\d+)?", lambda m: f"{round(float(m.group()), 6) + 0.0:.5f}", s)


def points(d, form, k=0):
    ps = [[rat(c) for c in p] for p in PTS[d]][: 2 + k % 2]
    return ps if form == "list" else [tuple(p) for p in ps]


def guarded(call, args):
    """Make a call; the arguments (lists, dicts, functions) must be unmodified afterwards."""
    before = [canon(a) for a in args]
    keep = copy.deepcopy([a for a in args if isinstance(a, (list, dict))])
    out = call(*args)
    for a, b in zip(args, before):
        if not same(canon(a), b):
            raise Violation(f"a call changed its argument from {b} to {canon(a)}")
    if keep != [a for a in args if isinstance(a, (list, dict))]:
        raise Violation("a call changed its argument")
    return out


def aff_of(k, d):
    """A few fixed affine maps."""
    b = [[Fr(1, 2), Fr(-1), Fr(2)], [Fr(0), Fr(1), Fr(-2)], [Fr(-1), Fr(0), Fr(1, 3)]][k % 3][:d]
    a = [[Fr(int(i == j)) for j in range(d)] for i in range(d)]
    if k % 3 == 1:
        a[0][0] = Fr(-2)
    if k % 3 == 2 and d > 1:
        a[0][1] = Fr(1, 2)
        a[1][1] = Fr(3)
    return {"A": [[gen.js(i) for i in r] for r in a], "b": [gen.js(i) for i in b]}


def some(fs, n):
    """The number of functions in a list, one of them and the last one."""
    return [len(fs), fs[n], fs[-1]]


def element_query(e, op, k, f):
    """A public call on an element; k selects among arguments, f is a function to use."""
    cell = e.reference.name
    d = e.reference.tdim
    n = k % e.space_dim
    if op == "basis":
        return e.get_basis_functions()[n]
    if op == "all basis":
        bs = e.get_basis_functions()
        return [len(bs), [canon(b) for b in bs[:8]]]
    if op == "basis factorised":
        return e.get_basis_functions(use_tensor_factorisation=True)[n]
    if op == "basis function":
        return e.get_basis_function(n).get_function()
    if op == "wrapped":
        b = e.get_basis_function(n)
        c = [lambda: b.subs(num.X[0], rat(Fr(1, 3))) if k % 2 else b.subs([num.X[0]], [rat(Fr(1, 3))]), lambda: b.diff(num.X[0]), lambda: 2 * b, lambda: b.norm() if b.is_vector else b + 1,
             lambda: b.with_floats(), lambda: b.as_tex(), lambda: b.shape, lambda: b.grad(d) if b.is_scalar else b.div()]  # fmt: skip
        r = c[(k // 3) % len(c)]()
        return r.get_function() if hasattr(r, "get_function") else r
    if op == "tabulate":
        order = ["xyzxyz", "xyz,xyz", "xxyyzz", "xx,yy,zz"][k % 4]
        return guarded(lambda p: e.tabulate_basis(p, order), [points(d, "list" if k % 3 else "tuple", k)])
    if op == "tabulate float":
        return guarded(e.tabulate_basis_float, [points(d, "list", k)])
    if op == "map":
        return guarded(lambda v: some(e.map_to_cell(v), n), [verts(aff_of(k, d), cell)])
    if op == "map basis":
        bs = list(e.get_basis_functions())
        return guarded(lambda v, b: some(e.map_to_cell(v, b), n), [verts(aff_of(k, d), cell), bs])
    if op == "map and use":
        fs = e.map_to_cell(verts(aff_of(k, d), cell))
        for g in fs[:2]:
            if isinstance(g, PiecewiseFunction):
                g.map_pieces(tuple(2 * x + 1 for x in num.X[:d]))
        return some(e.map_to_cell(verts(aff_of(k, d), cell)), n)
    if op == "dof":
        return guarded(e.dofs[n].eval, [f])
    if op == "dof of basis":
        return [e.dofs[n].eval(b) for b in e.get_basis_functions()[:4]]
    if op == "dof facts":
        x = e.dofs[n]
        return [x.dof_point(), x.dof_direction(), x.adjusted_dof_point(), x.get_tex(), x.entity, x.entity_dim()]
    if op == "dof lists":
        return [e.dof_plot_positions(), e.dof_directions(), e.dof_entities()]
    if op == "entities":
        return [[e.entity_dofs(i, j) for j in range(len(geo.entities(cell, i)))] for i in range(d + 1)]
    if op == "dual":
        return e.get_dual_matrix()
    if op == "polynomial basis":
        return e.get_polynomial_basis()[n]
    if op == "degrees":
        return [e.maximum_degree, e.lagrange_subdegree, e.lagrange_superdegree, e.polynomial_subdegree, e.polynomial_superdegree]
    if op == "facts":
        return [e.name, e.order, e.space_dim, e.range_dim, e.range_shape, e.domain_dim, e.continuity, e.init_kwargs(), e.value_type]
    if op == "plot dofs":
        return picture(e.plot_dof_diagram)
    if op == "plot basis":
        return picture(lambda fn: e.plot_basis_function(n, fn))
    if op == "test":
        return e.test()
    if op == "factorisation":
        return [[t, fs, p] for t, fs, p in e.get_tensor_factorisation()]
    if op == "arithmetic":
        b = e.get_basis_functions()[n]
        g = b
        g += b
        g *= 3
        g -= b
        g /= 2
        return g
    if op == "calculus":
        b = e.get_basis_functions()[n]
        c = [lambda: b.diff(num.X[k % d]), lambda: b.grad(d) if b.is_scalar else b.div(), lambda: b.directional_derivative([1] * d),
             lambda: guarded(lambda s: b.subs(s), [{num.X[0]: sympy.Rational(1, 3)}]), lambda: b.subs(num.X, [sympy.Rational(1, 5)] * 3),
             lambda: b.integral(e.reference, num.X), lambda: b.jacobian(d), lambda: b.maximum_degree(e.reference)]  # fmt: skip
        return c[(k // 2) % len(c)]()
    if op == "tex":
        return e.get_basis_functions()[n].as_tex()
    if op == "piece":
        b = e.get_basis_functions()[n]
        return b.get_piece(tuple(rat(c) for c in PTS[d][k % 2])) if isinstance(b, PiecewiseFunction) else b.with_floats()
    if op == "create":
        return e.__class__(e.reference, max(e.order, 1), **e.init_kwargs()).get_basis_functions()[0]
    if op == "reference":
        return [e.reference, e.reference.volume()]
    raise HarnessError(op)


ELEMENT_OPS = ["basis", "all basis", "basis factorised", "basis function", "wrapped", "wrapped", "tabulate", "tabulate float", "map", "map basis", "map and use", "dof", "dof of basis",
               "dof facts", "dof lists", "entities", "dual", "polynomial basis", "degrees", "facts", "plot dofs", "plot basis", "test", "factorisation", "arithmetic",
               "calculus", "calculus", "tex", "piece", "create", "reference"]  # fmt: skip


def reference_query(r, op, k, f):
    d, cell = r.tdim, r.name
    if op == "volume":
        return r.volume()
    if op == "facts":
        return [r.midpoint(), r.jacobian(), r.axes, r.origin, r.vertices, r.edges, r.faces, r.volumes, r.reference_vertices, r.tdim, r.gdim]
    if op == "axes":
        return r.scaled_axes()
    if op == "tangent":
        return r.tangent()
    if op == "normal":
        return r.normal()
    if op == "map to":
        return guarded(r.get_map_to, [verts(aff_of(k, d), cell)])
    if op == "inverse map to":
        return guarded(r.get_inverse_map_to, [verts(aff_of(k, d), cell)])
    if op == "map to self":
        return [r.get_map_to_self(), r.get_inverse_map_to_self()] if k % 2 else r.get_inverse_map_to_self()
    if op == "sub entity":
        dim = k % (d + 1)
        n = (k // 5) % r.sub_entity_count(dim)
        s = r.sub_entity(dim, n, k % 2 == 1)
        return [s, s.midpoint(), r.sub_entities(dim), r.sub_entities(codim=d - dim), s.volume() if s.tdim else 0]
    if op == "lattice":
        return r.make_lattice(1 + k % 3)
    if op == "lattice with lines":
        return r.make_lattice_with_lines(1 + k % 3)
    if op == "lattice float":
        return [r.make_lattice_float(1 + k % 3), r.make_lattice_with_lines_float(2)]
    if op == "contains":
        return guarded(r.contains, [points(d, "tuple", k)[k % 2]])
    if op == "where":
        p = points(d, "tuple", k)[k % 2] if k % 3 else r.vertices[k % len(r.vertices)]
        return [guarded(r.at_vertex, [p]), guarded(r.on_edge, [p]), guarded(r.on_face, [p])]
    if op == "point":
        return r.get_point(points(d, "tuple", k)[k % 2])
    if op == "limits":
        return [[str(i[0]), i[1], i[2]] for i in r.integration_limits(num.X if k % 2 else num.T)]
    if op == "intersection":
        return r.intersection(symfem.create_reference(cell, verts(aff_of(k, d), cell)))
    if op == "default":
        return r.default_reference()
    if op == "compare":
        o = r.default_reference()
        return [r == o, r != o, hash(r) == hash(o), r == 3, len({r, o, r})]
    if op == "plot":
        return picture(r.plot_entity_diagrams)
    if op == "order":
        return [r.z_ordered_entities(), r.z_ordered_entities_extra_dim(), r.clockwise_vertices]
    if op == "map polyset":
        return r.map_polyset_from_default([parse_function_input(f)] if f.is_scalar else [ScalarFunction(num.X[0])])
    if op == "integrate":
        g = f if f.is_scalar and not isinstance(f, PiecewiseFunction) else ScalarFunction(num.X[0] ** 2)
        return guarded(lambda h, v: h.integral(r, v), [g, list(num.X) if k % 2 else tuple(num.X)])
    if op == "element":
        return symfem.create_element(cell, "Lagrange", 1).get_basis_functions()
    raise HarnessError(op)


REFERENCE_OPS = ["volume", "facts", "axes", "tangent", "normal", "map to", "inverse map to", "map to self", "sub entity", "sub entity", "lattice", "lattice with lines", "lattice float", "contains",
                 "where", "point", "limits", "intersection", "default", "compare", "plot", "order", "map polyset", "integrate", "element"]  # fmt: skip


def function_query(f, op, k, g):
    d = 2
    v = [rat(Fr(1, 3)), rat(Fr(1, 5)), rat(Fr(2, 7))]
    if op == "value":
        return guarded(lambda a, b: f.subs(a, b), [list(num.X), v])
    if op == "dict":
        return guarded(lambda a: f.subs(a), [{num.X[0]: v[0], num.X[1]: v[1]}])
    if op == "subs":
        return f.subs(num.X[k % 3], num.X[(k + 1) % 3] + 1 if not isinstance(f, PiecewiseFunction) else num.T[0])
    if op == "binary":
        r = [lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * 2 - b, lambda a, b: b + a, lambda a, b: a.dot(b), lambda a, b: a.cross(b), lambda a, b: -a, lambda a, b: a / 3, lambda a, b: a**2]
        return guarded(r[k % len(r)], [f, g])
    if op == "in place":
        h = f
        h += f
        h -= 1 if f.is_scalar else f
        h *= 2
        return h
    if op == "calculus":
        c = [lambda: f.diff(num.X[k % 2]), lambda: f.grad(d), lambda: f.div(), lambda: f.curl(), lambda: f.directional_derivative((1, 2)), lambda: f.jacobian(d), lambda: f.jacobian_component((0, 1))]
        return c[k % len(c)]()
    if op == "facts":
        return [f.is_scalar, f.is_vector, f.is_matrix, f.shape if not f.is_scalar else None, f.as_tex(), str(f)]
    if op == "integral":
        return f.integral(symfem.create_reference("triangle"), num.X)
    if op == "integrate":
        return guarded(lambda lim: f.integrate(lim), [(num.X[0], sympy.Integer(0), sympy.Integer(1))])
    if op == "floats":
        return f.with_floats()
    if op == "norm":
        return f.norm()
    if op == "item":
        return [f[k % 2], len(f), list(f)]
    if op == "piece":
        return [f.get_piece((rat(Fr(1, 7)), rat(Fr(2, 9)))), len(f.pieces)]
    if op == "plot":
        return picture(lambda fn: f.plot(symfem.create_reference("triangle"), fn))
    if op == "map":
        h = 1 * f
        if isinstance(h, PiecewiseFunction):
            h.map_pieces((num.X[0] + 1, 2 * num.X[1]))
        return h
    if op == "compare":
        return [f == f, f == g, f != g, f == 1 * f]
    if op == "degree":
        return f.maximum_degree(symfem.create_reference("triangle"))
    raise HarnessError(op)


FUNCTION_OPS = ["value", "dict", "subs", "binary", "binary", "in place", "calculus", "calculus", "facts", "integral", "integrate", "floats", "norm", "item", "piece", "plot", "map", "compare", "degree"]
QUERY = {"element": element_query, "element at": element_query, "reference": reference_query, "function": function_query}


def ask(spec, obj, op, k, f):
    """The answer, or the kind of refusal."""
    try:
        return canon(QUERY[spec[0]](obj, op, k, f))
    except (Violation, HarnessError, MemoryError):
        raise
    except Exception as e:
        return ["raises", type(e).__name__]


def alone(spec, op, k, fspec):
    """The answer of a fresh object in a forked process that makes only this call."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", ask(spec, make(spec), op, k, make_function(fspec)))
            except Violation as e:
                out = ("violation", str(e))
            except core.Inconclusive:
                out = ("time", "")
            except BaseException as e:
                out = ("error", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise HarnessError(f"no answer from the forked process (status {status})")
    kind, out = pickle.loads(data)
    if kind == "time":
        raise core.Inconclusive()
    if kind == "violation":
        raise Violation(out)
    if kind == "error":
        raise Violation(f"creation failed in a fresh process: {out}")
    return out


def prop_history(case, ctx):
    specs = case["pool"]
    fspec = case["f"]
    pool = {}
    known = {}
    asked = []
    f = make_function(fspec)
    f0 = canon(f)

    def go(i, op, k):
        spec = specs[i]
        key = json.dumps([spec, op, k])
        if key not in known:
            known[key] = alone(spec, op, k, fspec)
        if i not in pool:
            pool[i] = make(spec)
        got = ask(spec, pool[i], op, k, f)
        hist = "; ".join(f"{specs[a][0]} {a}: {b}({c})" for a, b, c in asked[-6:])
        if not same(got, known[key]):
            raise Violation(f"{op}({k}) on {json.dumps(spec)[:160]} answers {diff(got, known[key])} after {hist}")
        ctx.count()
        ctx.label(spec[0] + " " + op + (" refused" if isinstance(got, list) and got[:1] == ["raises"] else ""))
        asked.append((i, op, k))
        return got[:1] != ["raises"] if isinstance(got, list) else True

    answers = 0
    for i, op, k in case["ops"]:
        answers += go(i % len(specs), op, k)
    # everything that was asked is asked again, on every object with the same description
    for i, op, k in list(dict.fromkeys(asked)):
        for j, s in enumerate(specs):
            if s == specs[i]:
                go(j, op, k)
    check(same(canon(f), f0), "a function passed as an argument has changed")
    if answers < 2:
        ctx.trivial("fewer than two answers")


def diff(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for n, (i, j) in enumerate(zip(a, b)):
            if not same(i, j):
                return diff(i, j, f"{path}[{n}]")
    if isinstance(a, str) and isinstance(b, str):
        n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"...{a[max(0, n - 30):n + 60]!r} instead of ...{b[max(0, n - 30):n + 60]!r} (at {path})"
    return f"{str(a)[:200]} instead of {str(b)[:200]} (at {path})"


# ------------------------------------------------------------------ strategies
def function_spec(kinds=("scalar", "vector", "piecewise")):
    def one(k):
        if k == "scalar":
            return gen.polynomial(2, 2).map(lambda p: ["scalar", [p]])
        if k == "vector":
            return st.lists(gen.polynomial(2, 2), min_size=2, max_size=2).map(lambda p: ["vector", p])
        return st.tuples(gen.rats(), st.lists(gen.polynomial(2, 2), min_size=3, max_size=3)).map(lambda t: ["piecewise", t[0], t[1]])

    return st.sampled_from(kinds).flatmap(one)


@st.composite
def element_history(draw, cfg, nops):
    """Histories of an element, a twin of it, and its reference."""
    d = geo.TDIM[cfg[0]]
    pool = [["element", cfg], ["element", cfg], ["reference", cfg[0], None]]
    rows = cfg[4] if len(cfg) > 4 else 1
    ops = []
    for _ in range(draw(st.integers(2, nops))):
        i = draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
        ops.append([i, draw(st.sampled_from(REFERENCE_OPS if i == 2 else ELEMENT_OPS)), draw(st.integers(0, 11))])
    n = 1 if rows == 1 else rows
    comps = [draw(gen.polynomial(d, 2)) for _ in range(n)]
    pool = [[p[0], p[1][:4]] if p[0] == "element" else p for p in pool]
    return {"pool": pool, "ops": ops, "f": ["scalar" if n == 1 else "vector", comps]}


@st.composite
def mixed_history(draw, cfgs, nops):
    """Histories of several elements, some of them on the same cell."""
    a, b = draw(st.sampled_from(cfgs)), draw(st.sampled_from(cfgs))
    pool = [["element", a], ["element", b], ["element", a], ["reference", a[0], None]]
    ops = []
    for _ in range(draw(st.integers(3, nops))):
        i = draw(st.integers(0, 3))
        ops.append([i, draw(st.sampled_from(REFERENCE_OPS if i == 3 else ELEMENT_OPS)), draw(st.integers(0, 11))])
    return {"pool": pool, "ops": ops, "f": draw(function_spec())}


@st.composite
def reference_history(draw, cell, nops):
    aff = draw(gen.affine(geo.TDIM[cell]))
    pool = [["reference", cell, None], ["reference", cell, aff], ["reference", cell, aff], ["reference", cell, None]]
    ops = [[draw(st.integers(0, 3)), draw(st.sampled_from(REFERENCE_OPS)), draw(st.integers(0, 11))] for _ in range(draw(st.integers(2, nops)))]
    return {"pool": pool, "ops": ops, "f": draw(function_spec())}


@st.composite
def function_history(draw, nops):
    a, b = draw(function_spec()), draw(function_spec())
    pool = [["function", a], ["function", a], ["function", b]]
    ops = [[draw(st.integers(0, 2)), draw(st.sampled_from(FUNCTION_OPS)), draw(st.integers(0, 11))] for _ in range(draw(st.integers(2, nops)))]
    return {"pool": pool, "ops": ops, "f": draw(st.sampled_from([a, b]))}


def make_groups(tier, seed):
    quick = tier == "quick"
    k = 1 if quick else 5
    out = [Group(f"functions/{i}", prop_history, function_history(8), 15 * k, 3) for i in range(4)]
    for cell in geo.DEFAULT:
        if cell != "point":
            out.append(Group(f"references/{cell}", prop_history, reference_history(cell, 12), 8 * k, 3))
    seen = set()
    cheap = []
    for r in elems.table():
        if r["cost"] > (0.15 if quick else 0.5) or r["dim"] > (10 if quick else 20) or r["cell"] not in geo.DEFAULT or r["cell"] == "point":
            continue
        c = elems.cfg(r)
        key = (r["cls"], r["cell"]) if quick else (r["cls"], r["cell"], r["order"], str(r["doft"]))
        if r["cost"] < 0.05 and r["dim"] <= 6:
            cheap.append(c)
        if key in seen:
            continue
        seen.add(key)
        rows = geo.TDIM[c[0]] if r["value"] == "vector" else 1
        out.append(Group(f"element/{elems.cfg_name(c)}", prop_history, element_history([*c, rows], 12), 4 if quick else 5, 2))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        cs = [c for c in cheap if c[0] == cell]
        out.append(Group(f"mixed/{cell}", prop_history, mixed_history(cs, 12), 6 * k, 4))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C19", make_groups, RULE))

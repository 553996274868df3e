"""C24: a basis-function object is interchangeable with the function it wraps."""

import operator
import os
import shutil
import sys
import tempfile
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import sympy

import symfem
from symfem.basis_functions import BasisFunction, SubbedBasisFunction
from symfem.finite_element import CiarletElement
from symfem.functions import AnyFunction, MatrixFunction, ScalarFunction, VectorFunction, parse_function_input, parse_function_list_input
from symfem.piecewise_functions import PiecewiseFunction
from symfem.plotting import Picture

from . import c09

RULE = (
    "a case is a basis function of an element (or a user-defined basis function wrapping a generated function), with "
    "a program of operations whose operands are numbers, expressions, functions and other basis-function objects on "
    "either side; non-trivial if at least one step gives a value; every step is made with the object and with the "
    "function it wraps, and must give equal values or be refused for both"
)
X = num.X


class Wrapped(BasisFunction):
    """A user's basis function."""

    def __init__(self, f):
        super().__init__(scalar=f.is_scalar, vector=f.is_vector, matrix=f.is_matrix)
        self.f = f

    def get_function(self):
        return self.f


# ------------------------------------------------------------------ comparison
PROBE = [Fr(3, 7), Fr(-5, 11), Fr(8, 13), Fr(2, 17), Fr(13, 19), Fr(-7, 5)]


def expr_equal(a, b):
    if a == b:
        return True
    if a.free_symbols | b.free_symbols:
        sub = {s: num.R(PROBE[i % len(PROBE)]) for i, s in enumerate(sorted(a.free_symbols | b.free_symbols, key=str))}
        a, b = a.subs(sub, simultaneous=True), b.subs(sub, simultaneous=True)
        if a == b:
            return True
    d = sympy.N(a - b, 30)
    try:
        return abs(complex(d)) <= 1e-10 * (1 + abs(complex(sympy.N(a))))
    except TypeError:
        return sympy.simplify(a - b) == 0


def same(a, b, say):
    """The value from the object (a) and from the function it wraps (b) agree."""
    if isinstance(a, BasisFunction) or isinstance(b, BasisFunction) or isinstance(a, AnyFunction) or isinstance(b, AnyFunction):
        check(isinstance(a, AnyFunction) and isinstance(b, AnyFunction), f"{say}: {type(a).__name__}, from the function {type(b).__name__}")
        fa, fb = (a.is_scalar, a.is_vector, a.is_matrix), (b.is_scalar, b.is_vector, b.is_matrix)
        check(fa == fb, f"{say}: (is_scalar, is_vector, is_matrix) = {fa}, from the function {fb}")
        a = a.get_function() if isinstance(a, BasisFunction) else a
        b = b.get_function() if isinstance(b, BasisFunction) else b
        fa = (a.is_scalar, a.is_vector, a.is_matrix)
        check(fa == fb, f"{say}: the wrapped function has flags {fa}, but they should be {fb}")
        if isinstance(a, PiecewiseFunction) or isinstance(b, PiecewiseFunction):
            check(isinstance(a, PiecewiseFunction) and isinstance(b, PiecewiseFunction), f"{say}: {type(a).__name__}, from the function {type(b).__name__}")
            check(a.tdim == b.tdim and set(a.pieces) == set(b.pieces), f"{say}: pieces {list(a.pieces)}, from the function {list(b.pieces)}")
            for k in a.pieces:
                same(a.pieces[k], b.pieces[k], f"{say} on the piece {k}")
            return
        a, b = a.as_sympy(), b.as_sympy()
    if isinstance(b, dict):
        check(isinstance(a, dict) and list(map(str, a)) == list(map(str, b)), f"{say}: {a}, from the function {b}")
        for i, j in zip(a.values(), b.values()):
            same(i, j, say)
        return
    if isinstance(b, (tuple, list)):
        check(isinstance(a, (tuple, list)) and len(a) == len(b), f"{say}: {a}, from the function {b}")
        for i, j in zip(a, b):
            same(i, j, say)
        return
    if isinstance(b, sympy.MatrixBase):
        check(isinstance(a, sympy.MatrixBase) and a.shape == b.shape, f"{say}: {a}, from the function {b}")
        for i, j in zip(a, b):
            same(i, j, say)
        return
    if isinstance(b, sympy.Expr):
        check(isinstance(a, sympy.Expr) and expr_equal(a, b), f"{say}: {a}, from the function {b}")
        return
    if isinstance(b, float):
        check(isinstance(a, float) and abs(a - b) <= 1e-12 * (1 + abs(b)), f"{say}: {a}, from the function {b}")
        return
    check(a == b, f"{say}: {a!r}, from the function {b!r}")


def force(v):
    """Make a lazy value compute what it stands for."""
    if isinstance(v, BasisFunction):
        f = v.get_function()
        check(not isinstance(f, BasisFunction), "get_function returned another basis function")
    return v


def show(v):
    try:
        return str(v)[:500]
    except Exception:
        return f"<{type(v).__name__}>"


def numeric(v):
    """May be used as a value to substitute, an exponent or one side of an inequality."""
    return isinstance(v, (int, sympy.Expr)) or (isinstance(v, AnyFunction) and v.is_scalar and not piecewise(v))


def piecewise(v):
    if isinstance(v, BasisFunction):
        v = v.get_function()
    return isinstance(v, PiecewiseFunction)


def sensible(op, a, b):
    """Leaves out what the functions themselves neither support nor refuse (powers of vectors, dictionaries as values, ...)."""
    if op in ("**", "<", ">="):
        return numeric(a) and numeric(b) or (op == "**" and isinstance(b, int) and not isinstance(a, (tuple, list, sympy.MatrixBase)))
    if op == "subs1":
        return numeric(b)
    if op == "subs":
        return isinstance(b, (tuple, list)) or (isinstance(b, AnyFunction) and b.is_vector and not piecewise(b))
    if op in ("+", "-", "*", "/", "@"):  # sympy takes what it is not meant to: expressions with vectors or dictionaries
        for u, v in ((a, b), (b, a)):
            if isinstance(u, sympy.Basic) and isinstance(v, AnyFunction) and (not v.is_scalar or piecewise(v)):
                return False
    return True


SLOW = ("integral", "integral in t", "integral vars", "integrate", "as_tex", "degree", "dofs", "eval_symbolic")


def polynomial(f):
    if isinstance(f, PiecewiseFunction):
        return all(map(polynomial, f.pieces.values()))
    return all(e.is_polynomial(*e.free_symbols) for e in num.shape_and_flat(f)[1])


def attempt(fn):
    try:
        return force(fn()), None
    except (core.Violation, MemoryError):
        raise
    except Exception as e:
        return None, e


# ------------------------------------------------------------------ operands
def like(shape, polys, form, offset=0):
    """A function, tuple, list or sympy matrix of the given shape."""
    ps = [gen.psym(p) for p in polys]
    at = lambda i: ps[(i + offset) % len(ps)]
    if len(shape) == 0:
        return ScalarFunction(at(0)) if form % 2 else at(0)
    if len(shape) == 1:
        v = [at(i) for i in range(shape[0])]
        return [VectorFunction(v), tuple(v), list(v), sympy.Matrix(v)][form % 4]
    m = [[at(shape[1] * i + j) for j in range(shape[1])] for i in range(shape[0])]
    return [MatrixFunction(m), tuple(map(tuple, m)), m, sympy.Matrix(m)][form % 4]


def shape_of(f):
    while isinstance(f, PiecewiseFunction):
        f = f.first_piece
    if f.is_scalar:
        return ()
    return tuple(f.shape)


class World:
    def __init__(self, case, ctx):
        self.case = case
        if "cfg" in case:
            cell, fam, k, kw = case["cfg"]
            self.cell = cell
            self.e = elems.get(cell, fam, k, kw, fresh=True)
            self.ref = self.e.reference
            self.n = case["n"] % self.e.space_dim
            if case["lazy"]:
                self.w = self.e.get_basis_function(self.n)
                self.f = self.e.get_basis_functions()[self.n]
            else:
                self.f = self.e.get_basis_functions()[self.n]
                self.w = self.e.get_basis_function(self.n)
            self.name = f"{elems.cfg_name(case['cfg'])} function {self.n}"
        else:
            self.e = None
            self.cell = case["cell"]
            self.ref = symfem.create_reference(self.cell)
            self.f = self.user_function(case)
            self.w = Wrapped(self.f)
            self.name = f"user function {show(self.f)}"
        self.d = self.ref.tdim

    def user_function(self, case):
        shape = tuple(case["shape"])

        def piece(i):
            f = like(shape, case["polys"], 1 if not shape else 0, i)
            return f

        if case["how"] is None:
            return piece(0)
        parts = c09.partition(self.cell, case["how"], Fr(1, 3), Fr(1, 2))
        return PiecewiseFunction({tuple(num.RP(v) for v in vs): piece(i) for i, vs in enumerate(parts)}, geo.TDIM[self.cell])

    def other(self, m, sub):
        """Another basis-function object of the same kind, and its function."""
        if self.e is None:
            c = dict(self.case)
            c["polys"] = c["polys"][1:] + c["polys"][:1]
            f = self.user_function(c)
            w = Wrapped(f)
        else:
            m %= self.e.space_dim
            w, f = self.e.get_basis_function(m), self.e.get_basis_functions()[m]
        if sub is not None:
            w, f = w.subs(*sub), f.subs(*sub)
        return w, f

    def operand(self, spec, cur, wrapper):
        """Operand for the object's side (wrapper) or the function's side."""
        kind = spec["kind"]
        if kind == "int":
            return spec["int"]
        if kind == "rat":
            return num.R(spec["rat"])
        if kind == "expr":
            return gen.psym(spec["polys"][0])
        if kind == "cur":
            return cur
        if kind in ("same", "subbed"):
            sub = (X[0], X[1] + 2) if kind == "subbed" else None
            w, f = self.other(spec["int"], sub)
            return w if wrapper else f
        if kind == "other":  # a scalar basis function of another element
            e = elems.get(self.cell if self.cell in ("interval", "triangle", "tetrahedron") else "triangle", "Lagrange", 1)
            m = spec["int"] % e.space_dim
            return e.get_basis_function(m) if wrapper else e.get_basis_functions()[m]
        if kind == "like":
            return like(self.shape, spec["polys"], spec["form"])
        if kind == "scalar":
            return ScalarFunction(gen.psym(spec["polys"][0]))
        if kind == "wrong":
            return like([(), (2,), (3,), (2, 2), (3, 3), (2, 3)][spec["form"] % 6], spec["polys"], spec["int"])
        raise core.HarnessError(kind)

    def domain(self, i):
        subs = [self.ref] + [self.ref.sub_entity(k, j) for k in range(1, self.d) for j in range(self.ref.sub_entity_count(k))]
        return subs[i % len(subs)]


UNARY = {
    "neg": lambda v, W, s: -v,
    "as_sympy": lambda v, W, s: v.as_sympy(),
    "_sympy_": lambda v, W, s: sympy.sympify(v),
    "as_tex": lambda v, W, s: v.as_tex(),
    "repr": lambda v, W, s: repr(v),
    "str": lambda v, W, s: str(v),
    "diff": lambda v, W, s: v.diff(X[s["int"] % 3]),
    "div": lambda v, W, s: v.div(),
    "grad": lambda v, W, s: v.grad(W.d),
    "grad()": lambda v, W, s: v.grad(),
    "curl": lambda v, W, s: v.curl(),
    "norm": lambda v, W, s: v.norm(),
    "directional_derivative": lambda v, W, s: v.directional_derivative([1, s["int"], -2][: W.d]),
    "jacobian_component": lambda v, W, s: v.jacobian_component((s["int"] % 3, s["form"] % 3)),
    "jacobian": lambda v, W, s: v.jacobian(W.d),
    "det": lambda v, W, s: v.det(),
    "transpose": lambda v, W, s: v.transpose(),
    "with_floats": lambda v, W, s: v.with_floats(),
    "integral": lambda v, W, s: v.integral(W.domain(s["int"])),
    "integral in t": lambda v, W, s: v.integral(W.ref, X, sympy.symbols("u0 u1 u2")),
    "integral vars": lambda v, W, s: v.integral(W.ref, X[: W.d]),
    "integrate": lambda v, W, s: v.integrate((X[s["int"] % 2], 0, 1), (X[2], s["int"], X[1])),
    "len": lambda v, W, s: len(v),
    "shape": lambda v, W, s: tuple(v.shape),
    "iter": lambda v, W, s: list(v),
    "unpack": lambda v, W, s: (lambda *a: a)(*v),
    "index": lambda v, W, s: v[s["int"] % 4],
    "negative index": lambda v, W, s: v[-1],
    "slice": lambda v, W, s: v[: s["int"] % 4],
    "pair index": lambda v, W, s: v[s["int"] % 3, s["form"] % 3],
    "degree": lambda v, W, s: v.maximum_degree(W.ref),
    "float": lambda v, W, s: float(v),
    "value": lambda v, W, s: float(v.subs(X, [num.R(c) for c in s["point"]])) if v.is_scalar else v.subs(X, [num.R(c) for c in s["point"]]),
    "subs point": lambda v, W, s: v.subs(X[: W.d], [num.R(c) for c in s["point"][: W.d]]),
    "subs point function": lambda v, W, s: v.subs(X[: W.d], VectorFunction([num.R(c) for c in s["point"][: W.d]])),
    "subs one": lambda v, W, s: v.subs(X[s["int"] % 3], num.R(s["point"][0])),
    "subs int": lambda v, W, s: v.subs(X[s["int"] % 3], s["int"]),
    "subs scalar function": lambda v, W, s: v.subs(X[0], ScalarFunction(gen.psym(s["polys"][0]))),
    "subs swap": lambda v, W, s: v.subs(X[:2], (X[1], X[0] + s["int"])),
    "subs list": lambda v, W, s: v.subs(list(X[:2]), [X[1], sympy.Integer(s["int"])]),
    "subs wrong": lambda v, W, s: v.subs(X[:2], 3),
    "parse": lambda v, W, s: parse_function_input(v),
    "parse list": lambda v, W, s: parse_function_list_input([v, v]),
    "vector of": lambda v, W, s: VectorFunction([v, s["int"], v]),
    "matrix of": lambda v, W, s: MatrixFunction([[v, v], [s["int"], v]]),
    "row": lambda v, W, s: v.row(s["int"] % 2) if not isinstance(v, BasisFunction) else v.get_function().row(s["int"] % 2),
    "pieces of": lambda v, W, s: PiecewiseFunction({((0, 0), (1, 0), (0, 1)): v, ((1, 0), (1, 1), (0, 1)): 2 * v}, 2),
    "pow": lambda v, W, s: v ** (s["int"] % 3),
    "dofs": lambda v, W, s: [d.eval(v) for d in W.dofs()],
    "eval_symbolic": lambda v, W, s: [d.eval_symbolic(v) for d in W.dofs()],
    "mapped": lambda v, W, s: W.mapping(v, s["form"]),
}  # fmt: skip
BINARY = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "@": operator.matmul, "**": operator.pow,
    "==": operator.eq, "!=": operator.ne, "<": operator.lt, ">=": operator.ge,
    "dot": lambda a, b: a.dot(b), "cross": lambda a, b: a.cross(b), "subs": lambda a, b: a.subs(X[:2], b), "subs1": lambda a, b: a.subs(X[0], b),
}  # fmt: skip


def _dofs(self):
    if not isinstance(self.e, CiarletElement):
        e = elems.get("triangle", "Lagrange", 1)
        return e.dofs[:2]
    return self.e.dofs[:4] + self.e.dofs[-1:]


def _mapping(self, v, form):
    from symfem import mappings

    F = (2 * X[0] + X[1], X[1] - X[0], X[2])[: self.d]
    G = {1: (X[0] / 2 - X[1] / 2,), 2: ((X[0] - X[1]) / 3, (X[0] + 2 * X[1]) / 3), 3: ((X[0] - X[1]) / 3, (X[0] + 2 * X[1]) / 3, X[2])}[self.d]
    if self.d == 1:
        F, G = (2 * X[0],), (X[0] / 2,)
    fn = [mappings.identity, mappings.l2, mappings.covariant, mappings.contravariant, mappings.double_covariant, mappings.double_contravariant][form % 6]
    return fn(v, F, G)


World.dofs = _dofs
World.mapping = _mapping




def prop(case, ctx):
    W = World(case, ctx)
    W.shape = shape_of(W.f)
    before = None
    if W.e is not None:
        before = [repr(num.raw(f)) for f in W.e.get_basis_functions()]
        ctx.label(f"family:{case['cfg'][1]}")
    else:
        ctx.label("user-defined")
    ctx.label(type(W.f).__name__)
    same(W.w, W.f, f"{W.name}: get_function()")
    w, f = W.w, W.f
    said = W.name
    values = 0
    subbed = False
    for spec in case["prog"]:
        op = spec["op"]
        if op in UNARY:
            if op in SLOW and not polynomial(f):
                continue
            if op == "pieces of" and piecewise(f):
                continue
            if op == "degree" and isinstance(w, SubbedBasisFunction):
                continue  # documented: not available after a substitution
            a, ea = attempt(lambda: UNARY[op](w, W, spec))
            b, eb = attempt(lambda: UNARY[op](f, W, spec))
            said += f"; {op}({spec['int']})"
        else:
            fn = BINARY[op]
            x, y = W.operand(spec, w, True), W.operand(spec, f, False)
            if spec["side"] and op in ("dot", "cross", "subs", "subs1") and not isinstance(x, AnyFunction):
                continue
            if not sensible(op, *((y, f) if spec["side"] else (f, y))):
                continue
            if spec["side"]:
                a, ea = attempt(lambda: fn(x, w))
                b, eb = attempt(lambda: fn(y, f))
                said += f"; {spec['kind']} {show(y)} {op} it"
            else:
                a, ea = attempt(lambda: fn(w, x))
                b, eb = attempt(lambda: fn(f, y))
                said += f"; it {op} {spec['kind']} {show(y)}"
        ctx.count()
        check((ea is None) == (eb is None), f"{said}: {'refused (' + repr(ea) + ')' if ea else 'accepted'}, but the function it wraps {'refuses (' + repr(eb) + ')' if eb else 'accepts'} it")
        if ea is not None:
            ctx.label("refused")
            said += " (refused)"
            continue
        ctx.label(f"op:{op}")
        if op not in UNARY:
            ctx.label(f"operand:{spec['kind']}/{'left' if spec['side'] else 'right'}")
        values += 1
        same(a, b, said)
        if isinstance(a, AnyFunction) and len(show(b)) < 400:
            w, f = a, b
    # the element is unchanged
    if W.e is not None:
        after = [repr(num.raw(g)) for g in W.e.get_basis_functions()]
        check(after == before, f"{said}: the element's basis functions changed")
        same(W.e.get_basis_function(W.n), W.e.get_basis_functions()[W.n], f"{said}: get_function() afterwards")
        same(W.w, W.e.get_basis_functions()[W.n], f"{said}: the object itself afterwards")
    if not values:
        ctx.trivial("every step was refused")


def aliasing(case, ctx):
    """Arguments of subs may be changed by their owner afterwards; chains of substitutions compose in order."""
    W = World(case, ctx)
    W.shape = shape_of(W.f)
    w, f = W.w, W.f
    vals = [num.R(c) if i % 2 else X[(i + 1) % 2] + num.R(c) for i, c in enumerate(case["vals"])][: W.d]
    if case["const"]:
        vals = [num.R(c) for c in geo.interior_point(W.cell, [1 + i for i, _ in enumerate(geo.DEFAULT[W.cell])])]
    vars = list(X[: W.d])
    g, h = w.subs(vars, vals), f.subs(vars, vals)
    ctx.label("substitution")
    if case["change"] == 0:
        vals[0] = sympy.Integer(77)
    elif case["change"] == 1:
        vals.clear()
    else:
        vars.reverse()
    ctx.count(2)
    same(g, h, f"{W.name}: substitution after its arguments were changed")
    same(w, W.f, f"{W.name}: the object after a substitution")
    for i, c in enumerate(case["chain"]):
        v = X[i % 3]
        g, h = g.subs(v, num.R(c) * X[(i + 1) % 3]), h.subs(v, num.R(c) * X[(i + 1) % 3])
        ctx.count()
        same(g, h, f"{W.name}: {i + 2} substitutions")


def plots(case, ctx):
    """Plots of the object are the plots of the function."""
    W = World(case, ctx)
    W.shape = shape_of(W.f)
    tmp = tempfile.mkdtemp(prefix="c24-")
    try:
        out = []
        for v in (W.w, W.f):
            p = os.path.join(tmp, f"{len(out)}.svg")

            def go():
                kw = {}
                if case["dof"]:
                    kw = {"dof_point": tuple(num.RP(geo.interior_point(W.cell, [1] * len(geo.DEFAULT[W.cell])))), "dof_n": 3, "dof_entity": (W.d, 0)}
                v.plot(W.ref, p, value_scale=num.R(case["scale"]), **kw)
                img = Picture()
                v.plot_values(W.ref, img, sympy.Integer(1), 4)
                return open(p).read() + img.as_tikz()

            out.append(attempt(go))
        (a, ea), (b, eb) = out
        ctx.count()
        ctx.label(f"family:{case['cfg'][1]}" if "cfg" in case else "user-defined")
        check((ea is None) == (eb is None), f"{W.name}: plotting the object {ea!r}, the function {eb!r}")
        if ea is not None:
            ctx.trivial("cannot be plotted")
            return
        check(a == b, f"{W.name}: the plots of the object and the function differ")
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ generators
def polys():
    return st.lists(gen.polynomial(3, 2, 3), min_size=3, max_size=4)


@st.composite
def step(draw, ops):
    op = draw(st.sampled_from(ops))
    s = {"op": op, "int": draw(st.integers(0, 5)), "form": draw(st.integers(0, 7)), "polys": draw(polys()) if op in BINARY or op == "subs scalar function" else []}
    if op in BINARY:
        s["kind"] = draw(st.sampled_from(["int", "rat", "expr", "cur", "same", "same", "subbed", "other", "like", "like", "scalar", "wrong"]))
        s["side"] = draw(st.sampled_from([0, 1]))
        s["rat"] = draw(gen.nonzero())
    else:
        s["point"] = draw(st.sampled_from([["1/4", "1/5", "1/6"], ["1/3", "1/3", "1/3"], ["1/2", "1/4", "1/8"]]))
    return s


ALL_OPS = list(UNARY) + list(BINARY) * 3


def program(lo=3, hi=6):
    return st.lists(step(ALL_OPS), min_size=lo, max_size=hi)


def make_groups(tier, seed):
    q = tier == "quick"
    out = []
    seen = set()
    for r in elems.select(0.02 if q else 0.5, lambda r: r["cell"] in geo.TDIM):
        c = elems.cfg(r)
        key = (c[0], c[1], min(c[2], 2), str(c[3].get("variant")) if not q else "")
        if key in seen and q:
            continue
        seen.add(key)
        base = {"cfg": st.just(c), "n": st.integers(0, 50), "lazy": st.booleans()}
        out.append(Group(f"element/{elems.cfg_name(c)}", prop, st.fixed_dictionaries({**base, "prog": program()}), 3 if q else 30, 0.3))
        small = st.lists(gen.nonzero(), min_size=3, max_size=3)
        out.append(Group(f"aliasing/{elems.cfg_name(c)}", aliasing, st.fixed_dictionaries({**base, "vals": small, "const": st.booleans(), "change": st.integers(0, 2), "chain": st.lists(gen.nonzero(), max_size=2)}), 1 if q else 5, 0.1))
    kinds = set()
    for r in elems.select(0.01):
        c = elems.cfg(r)
        if c[0] not in geo.TDIM or (c[0], r["cls"], r["continuity"]) in kinds:
            continue
        kinds.add((c[0], r["cls"], r["continuity"]))
        if q and (len(kinds) % 4 or c[0] in ("tetrahedron", "hexahedron", "prism", "pyramid")):
            continue
        base = {"cfg": st.just(c), "n": st.integers(0, 50), "lazy": st.booleans()}
        out.append(Group(f"plot/{elems.cfg_name(c)}", plots, st.fixed_dictionaries({**base, "dof": st.booleans(), "scale": gen.positive()}), 1, 1))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        for shape in ([], [2], [3], [2, 2], [3, 3]):
            for how in (None, 0, 1):
                base = {"cell": st.just(cell), "shape": st.just(shape), "how": st.just(how), "polys": polys()}
                n = f"{cell}/{'x'.join(map(str, shape)) or 'scalar'}/{'plain' if how is None else 'pieces' + str(how)}"
                out.append(Group(f"user/{n}", prop, st.fixed_dictionaries({**base, "prog": program()}), 8 if q else 120, 0.5))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C24", make_groups, RULE))

"""Reading TeX back as mathematics: a small strict parser and evaluator.

`parse(s)` gives a syntax tree for an expression (a function, or the right-hand side of a functional's
description), `evaluate` gives its value.  Anything that is not understood or not balanced raises
`Bad`.
"""

import re

import mpmath
import numpy as np


class Bad(Exception):
    """Not well-formed TeX, or not meaningful."""


_TOK = re.compile(
    r"""\s+|\\(?:begin|end)\{[a-z*]+\}|\\text\{[^{}]*\}|\\operatorname\{[^{}]*\}|\\left\\\{|\\right\\\}"""
    r"""|\\left.|\\right.|\\\\|\\[a-zA-Z]+|\\[,;:!\ ]|\d+\.\d+|\d+|[A-Za-z]|[-+*/^_{}()\[\]|&,.:=']"""
)
_SKIP = {"\\displaystyle", "\\,", "\\;", "\\!", "\\ "}


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = _TOK.match(s, i)
        if not m:
            raise Bad(f"cannot read {s[i:i + 12]!r}")
        t = m.group(0)
        i = m.end()
        if t.strip() and t not in _SKIP:
            out.append(t)
    return out


def balanced(s):
    """Braces, environments and \\left/\\right nest properly."""
    stack = []
    for t in tokens(s):
        if t == "{" or t.startswith("\\left") and t[5:] in ("(", "[", "|", ".", "\\{"):
            stack.append(t)
        elif t.startswith("\\begin"):
            stack.append(t)
        elif t == "}":
            if not stack or stack.pop() != "{":
                raise Bad("unbalanced brace")
        elif t.startswith("\\right") and t[6:] in (")", "]", "|", ".", "\\}"):
            if not stack or not stack.pop().startswith("\\left"):
                raise Bad("unbalanced \\right")
        elif t.startswith("\\end"):
            if not stack or stack.pop() != t.replace("\\end", "\\begin"):
                raise Bad("unbalanced \\end")
    if stack:
        raise Bad(f"unclosed {stack[-1]}")


FUNCS = {"\\sin": mpmath.sin, "\\cos": mpmath.cos, "\\log": mpmath.log, "\\exp": mpmath.exp}


class Parser:
    """Recursive descent.  `functional=True` knows the argument v, integrals and derivatives of v."""

    def __init__(self, s, functional=False):
        self.t = tokens(s)
        self.i = 0
        self.fn = functional
        self.points = []  # coordinates where v is evaluated
        self.integral = None
        self.symbols = []  # entity and direction symbols, as text

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, want=None):
        t = self.peek()
        if t is None or (want is not None and t != want):
            raise Bad(f"expected {want!r}, found {t!r}")
        self.i += 1
        return t

    def done(self):
        if self.peek() is not None:
            raise Bad(f"unexpected {self.peek()!r}")

    def group(self):
        """{ expr } or one token"""
        if self.peek() == "{":
            self.take()
            e = self.expr()
            self.take("}")
            return e
        t = self.peek()
        if t and re.fullmatch(r"\d", t):
            self.take()
            return ("num", t)
        if t and re.fullmatch(r"\d\d+", t):  # TeX: only the first digit
            self.t[self.i] = t[1:]
            return ("num", t[0])
        return self.atom()

    def raw_group(self):
        """text of a braced group"""
        self.take("{")
        depth, out = 1, []
        while True:
            t = self.take()
            if t == "{":
                depth += 1
            elif t == "}":
                depth -= 1
                if depth == 0:
                    return out
            out.append(t)

    def expr(self):
        neg = False
        if self.peek() in ("-", "+"):
            neg = self.take() == "-"
        e = self.term()
        if neg:
            e = ("neg", e)
        while self.peek() in ("+", "-"):
            op = self.take()
            r = self.term()
            e = ("add", e, r) if op == "+" else ("add", e, ("neg", r))
        return e

    END = {None, "+", "-", ")", "}", "]", "&", "\\\\", ",", "="}

    def term(self):
        e = self.factor()
        while True:
            p = self.peek()
            if p in self.END or p.startswith("\\right") and p[6:7] in ")]|.\\" and p not in ("\\rightarrow",) or p.startswith("\\end"):
                return e
            if p == "|" and getattr(self, "_abs", False):
                return e
            if p in ("\\cdot", "*", "\\times", ":"):
                self.take()
                neg = self.peek() == "-"
                if neg:
                    self.take()
                r = self.factor()
                e = ("mul" if p != ":" else "inner", e, ("neg", r) if neg else r)
            elif p == "/":
                self.take()
                e = ("div", e, self.factor())
            else:
                e = ("mul", e, self.factor())

    def factor(self):
        e = self.atom()
        while self.peek() in ("^", "_", "'"):
            op = self.take()
            if op == "_":
                raise Bad("unexpected subscript")
            if op == "'":
                raise Bad("unexpected prime")
            if self.fn and self.peek() == "{" and self.peek(1) == "\\text{t}":
                self.raw_group()
                e = ("T", e)
                if self.peek() == "_":  # a subscript after ^t belongs to the symbol
                    self.take()
                    n = "".join(self.raw_group())
                    if e[1][0] not in ("normal", "tangent") or e[1][1] is not None:
                        raise Bad("unexpected subscript")
                    e = ("T", self.direction(e[1][0], n))
                continue
            e = ("pow", e, self.group())
        return e

    # -------------------------------------------------------------- functionals only
    def direction(self, kind, n):
        s = "n" if kind == "normal" else "t"
        self.symbols.append((kind, s, int(n)))
        return (kind, int(n))

    def is_v(self):
        """Length of the tokens of the argument v at the current position, or 0."""
        p = self.peek()
        if p in ("v", "V"):
            return 1
        if p == "{" and self.peek(1) in ("v", "V") and self.peek(2) == "}":
            return 3
        if p in ("\\boldsymbol", "\\mathbf") and self.peek(1) == "{" and self.peek(2) in ("v", "V") and self.peek(3) == "}":
            return 4
        return 0

    def application(self):
        if self.peek() == "(":
            self.take()
            pts = [self.expr()]
            while self.peek() == ",":
                self.take()
                pts.append(self.expr())
            self.take(")")
            self.points.append(pts)

    def varg(self):
        n = self.is_v()
        if not n:
            raise Bad(f"expected the function v, found {self.peek()!r}")
        self.i += n
        k = 0
        while self.peek() == "'":
            self.take()
            k += 1
        if self.peek() == "^" and self.peek(1) == "{" and self.peek(2) == "(":
            self.take()
            g = "".join(self.raw_group())
            if not re.fullmatch(r"\(\d+\)", g):
                raise Bad(f"bad derivative order {g}")
            k = int(g[1:-1])
        self.application()
        return k

    def partial_frac(self):
        """\\frac{\\partial^k [v]}{\\partial a^i \\partial b^j}"""
        self.take("{")
        self.take("\\partial")
        k = 1
        if self.peek() == "^":
            self.take()
            k = int("".join(self.raw_group())) if self.peek() == "{" else int(self.take())
        has_v = False
        if self.peek() != "}":
            n = self.is_v()
            if not n:
                raise Bad("expected v under the derivative")
            self.i += n
            has_v = True
        self.take("}")
        self.take("{")
        dirs = []
        while self.peek() != "}":
            self.take("\\partial")
            a = self.atom()
            m = 1
            if self.peek() == "^":
                self.take()
                m = int("".join(self.raw_group())) if self.peek() == "{" else int(self.take())
            dirs += [a] * m
        self.take("}")
        if len(dirs) != k:
            raise Bad(f"a derivative of order {k} with respect to {len(dirs)} directions")
        if has_v:
            self.application()
            return ("v", dirs)
        p = self.peek()
        if p in ("\\frac", "\\tfrac"):
            self.take()
            inner = self.partial_frac()
            return ("v", dirs + inner[1])
        kk = self.varg()
        if kk:
            raise Bad("prime after a partial derivative")
        return ("v", dirs)

    def atom(self):
        if self.fn:
            n = self.is_v()
            if n:
                k = self.varg()
                return ("v", [("var", "x")] * k) if k else ("v", [])
        t = self.take()
        if re.fullmatch(r"\d+(\.\d+)?", t):
            return ("num", t)
        if t in ("\\frac", "\\tfrac", "\\dfrac"):
            if self.fn and self.peek() == "{" and self.peek(1) == "\\partial":
                return self.partial_frac()
            a = self.group()
            b = self.group()
            return ("div", a, b)
        if t == "\\sqrt":
            n = ("num", "2")
            if self.peek() == "[":
                self.take()
                n = self.expr()
                self.take("]")
            return ("pow", self.group(), ("div", ("num", "1"), n))
        if t == "\\pi":
            return ("pi",)
        if t in FUNCS:
            if self.peek() in ("{", "\\left(", "("):
                return ("fun", t, self.atom())
            raise Bad("function without argument")
        if t == "{":
            e = self.expr()
            self.take("}")
            return e
        if t == "(":
            e = self.expr()
            self.take(")")
            return e
        if t.startswith("\\left"):
            close = {"(": "\\right)", "[": "\\right]", "|": "\\right|"}.get(t[5:])
            if close is None:
                raise Bad(f"unknown delimiter {t}")
            if self.peek() == "\\begin{array}":
                e = self.array()
            else:
                e = self.expr()
            self.take(close)
            return ("abs", e) if t[5:] == "|" else e
        if t == "\\begin{array}":
            self.i -= 1
            return self.array()
        if self.fn:
            if t == "\\int":
                self.take("_")
                name = "".join(self.raw_group())
                if self.integral is not None:
                    raise Bad("two integrals")
                self.integral = name
                self.symbols.append(("entity", name, None))
                return ("num", "1")
            if t == "\\nabla":
                if self.peek() == "\\cdot":
                    self.take()
                    if self.varg():
                        raise Bad("prime under a divergence")
                    return ("divv",)
                if self.varg():
                    raise Bad("prime under a gradient")
                return ("gradv",)
            if t == "|":
                name = "".join(x for x in self.raw_group()) if self.peek() == "{" else None
                if name is None:
                    raise Bad("unknown |")
                self.take("|")
                self.symbols.append(("entity", name, None))
                return ("size", name)
            if t == "\\hat":
                g = "".join(self.raw_group())
                m = re.fullmatch(r"(?:\\boldsymbol|\\mathbf)\{([nt])\}", g)
                if not m:
                    raise Bad(f"unknown symbol \\hat{g}")
                kind = {"n": "normal", "t": "tangent"}[m.group(1)]
                if self.peek() == "_":
                    self.take()
                    return self.direction(kind, "".join(self.raw_group()))
                if self.peek() == "^" and self.peek(1) == "{" and self.peek(2) == "\\text{t}":
                    return (kind, None)
                raise Bad("direction of no entity")
        if re.fullmatch(r"[A-Za-z]", t):
            if self.peek() == "_":
                self.take()
                if self.peek() == "{":
                    sub = "".join(self.raw_group())
                else:
                    sub = self.take()
                return ("var", t + sub)
            return ("var", t)
        raise Bad(f"unexpected {t!r}")

    def array(self):
        self.take("\\begin{array}")
        spec = "".join(self.raw_group())
        if not re.fullmatch("[lcr]+", spec):
            raise Bad(f"bad column specification {spec}")
        rows = [[self.expr()]]
        while True:
            t = self.take()
            if t == "&":
                rows[-1].append(self.expr())
            elif t == "\\\\":
                rows.append([self.expr()])
            elif t == "\\end{array}":
                break
            else:
                raise Bad(f"unexpected {t!r} in an array")
        if any(len(r) != len(spec) for r in rows):
            raise Bad(f"rows of lengths {[len(r) for r in rows]} with column specification {spec}")
        return ("mat", rows)


def parse(s):
    balanced(s)
    p = Parser(s)
    e = p.expr()
    p.done()
    return e


def evaluate(e, env):
    """Value (mpmath) of a scalar expression."""
    k = e[0]
    if k == "num":
        return mpmath.mpf(e[1])
    if k == "pi":
        return mpmath.pi
    if k == "var":
        if e[1] not in env:
            raise Bad(f"unknown variable {e[1]}")
        return env[e[1]]
    if k == "neg":
        return -evaluate(e[1], env)
    if k == "add":
        return evaluate(e[1], env) + evaluate(e[2], env)
    if k == "mul":
        return evaluate(e[1], env) * evaluate(e[2], env)
    if k == "div":
        return evaluate(e[1], env) / evaluate(e[2], env)
    if k == "pow":
        b, x = evaluate(e[1], env), evaluate(e[2], env)
        return b ** (int(x) if x == int(x) else x)
    if k == "abs":
        return abs(evaluate(e[1], env))
    if k == "fun":
        return FUNCS[e[1]](evaluate(e[2], env))
    raise Bad(f"{k} in a scalar expression")


# ------------------------------------------------------------------ functionals
class Value:
    """kind 's', 'v' (list of arrays) or 'm' (rows of arrays)"""

    def __init__(self, kind, a):
        self.kind, self.a = kind, np.asarray(a, dtype=float)


class Evaluator:
    """Evaluates the body of a functional's description.

    env: arrays for x, y, z, t0, t1, t2; v: callable(directions) -> components of the derivative of v
    along the list of constant directions; gdim; vectors(kind, n) unit vectors; size(name)."""

    def __init__(self, env, v, gdim, vec, size, push, kind):
        self.kind = kind
        self.env, self.v, self.g, self.vec, self.size, self.push = env, v, gdim, vec, size, push
        self.n = len(next(iter(env.values())))

    def const(self, x):
        return np.full(self.n, float(x))

    def dirs(self, ds):
        out = []
        for d in ds:
            if d[0] == "var" and d[1] in "xyz" and "xyz".index(d[1]) < self.g:
                out.append([1.0 if i == "xyz".index(d[1]) else 0.0 for i in range(self.g)])
            else:
                v = self.ev0(d)
                if v.kind != "v" or len(v.a) != self.g:
                    raise Bad("derivative along something that is not a direction")
                out.append([float(c[0]) for c in v.a])
        return out

    def ev(self, e):
        r = self.ev0(e)
        if self.g == 1 and r.kind != "s":
            # on an interval, vectors and matrices have one entry
            a = r.a.reshape(-1, self.n)
            if len(a) != 1:
                raise Bad("more than one entry in a vector on an interval")
            return Value("s", a[0])
        return r

    def ev0(self, e):
        k = e[0]
        if k == "v":
            c = self.v(self.dirs(e[1]))
            if self.kind == "scalar":
                return Value("s", c[0])
            if self.kind == "vector":
                return Value("v", c)
            return Value("m", np.asarray(c).reshape(self.g, self.g, -1))
        if k == "gradv":
            cols = [self.v([[1.0 if i == j else 0.0 for j in range(self.g)]]) for i in range(self.g)]
            if self.kind != "scalar":
                raise Bad("gradient of a vector")
            return Value("v", [c[0] for c in cols])
        if k == "divv":
            cols = [self.v([[1.0 if i == j else 0.0 for j in range(self.g)]]) for i in range(self.g)]
            if self.kind != "vector" or any(len(c) != self.g for c in cols):
                raise Bad("divergence of something that is not a vector")
            return Value("s", sum(cols[i][i] for i in range(self.g)))
        if k in ("normal", "tangent"):
            return Value("v", [self.const(c) for c in self.vec(k, e[1])])
        if k == "size":
            return Value("s", self.const(self.size(e[1])))
        if k == "mat":
            rows = [[self.ev(c).a for c in r] for r in e[1]]
            if len(rows[0]) == 1:
                return Value("v", [r[0] for r in rows])
            return Value("m", rows)
        if k == "T":
            v = self.ev(e[1])
            if self.g == 1:
                return v
            if v.kind != "v":
                raise Bad("transpose of something that is not a vector")
            return Value("v", v.a)
        if k == "inner":
            return self.inner(self.ev(e[1]), self.ev(e[2]))
        if k == "mul":
            return self.mul(self.ev(e[1]), self.ev(e[2]))
        if k == "neg":
            v = self.ev(e[1])
            return Value(v.kind, -v.a)
        if k == "num":
            return Value("s", self.const(e[1]))
        if k == "var":
            if e[1] not in self.env:
                raise Bad(f"unknown variable {e[1]}")
            return Value("s", self.env[e[1]])
        if k in ("add", "div", "pow"):
            a, b = self.ev(e[1]), self.ev(e[2])
            if a.kind != "s" or b.kind != "s":
                raise Bad(f"{k} of things that are not scalars")
            return Value("s", a.a + b.a if k == "add" else a.a / b.a if k == "div" else a.a**b.a)
        raise Bad(f"cannot evaluate {k}")

    def inner(self, a, b):
        if self.g == 1 and a.kind == b.kind == "s":
            return Value("s", a.a * b.a)
        if a.kind == b.kind == "m" and a.a.shape == b.a.shape:
            return Value("s", (a.a * b.a).sum(axis=(0, 1)))
        raise Bad("inner product of things that are not matrices")

    def mul(self, a, b):
        if a.kind == "s" or b.kind == "s":
            s, o = (a, b) if a.kind == "s" else (b, a)
            return Value(o.kind, s.a * o.a)
        if a.kind == b.kind == "v":
            x, y = a.a, b.a
            if len(x) != len(y):
                # a vector given in the coordinates of the entity
                if len(x) < len(y):
                    x = self.push(x)
                else:
                    y = self.push(y)
            return Value("s", (x * y).sum(axis=0))
        if a.kind == "v":
            return Value("v", np.einsum("ik,ijk->jk", a.a, b.a))
        if b.kind == "v":
            return Value("v", np.einsum("ijk,jk->ik", a.a, b.a))
        return self.inner(a, b)

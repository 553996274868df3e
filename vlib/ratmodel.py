"""Exact model of rational functions in x, y, z over the rationals, independent of sympy and symfem."""

from fractions import Fraction as Fr

from . import num

ONE = {(0, 0, 0): Fr(1)}


class Undefined(Exception):
    """Division by the zero function, or evaluation at a pole."""


class RF:
    def __init__(self, n, d=None):
        self.n = {m: c for m, c in n.items() if c != 0}
        self.d = d or ONE
        if not self.d:
            raise Undefined()

    @classmethod
    def const(cls, c):
        c = Fr(c)
        return cls({(0, 0, 0): c} if c else {})

    @classmethod
    def var(cls, i):
        m = [0, 0, 0]
        m[i] = 1
        return cls({tuple(m): Fr(1)})

    def __add__(self, o):
        if self.d == o.d:
            return RF(num.padd(self.n, o.n), self.d)
        return RF(num.padd(num.pmul(self.n, o.d), num.pmul(o.n, self.d)), num.pmul(self.d, o.d))

    def __neg__(self):
        return RF({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        return RF(num.pmul(self.n, o.n), num.pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise Undefined()
        return RF(num.pmul(self.n, o.d), num.pmul(self.d, o.n))

    def __pow__(self, k):
        if k < 0:
            return RF.const(1) / (self ** (-k))
        out = RF.const(1)
        for _ in range(k):
            out = out * self
        return out

    def diff(self, i):
        return RF(
            num.padd(num.pmul(num.pdiff(self.n, i), self.d), num.pmul(self.n, num.pdiff(self.d, i)), -1),
            num.pmul(self.d, self.d) if self.d != ONE else ONE,
        )

    def at(self, p):
        d = num.peval(self.d, p)
        if d == 0:
            raise Undefined()
        return num.peval(self.n, p) / d

    def compose(self, subs):
        """Simultaneous substitution {variable number: RF}."""
        s = [subs.get(i, RF.var(i)) for i in range(3)]

        def go(p):
            out = RF.const(0)
            for m, c in p.items():
                t = RF.const(c)
                for i, e in enumerate(m):
                    if e:
                        t = t * s[i] ** e
                out = out + t
            return out

        return go(self.n) / go(self.d)

    def zero(self):
        return not self.n

    def same(self, o):
        return (self - o).zero()

    def size(self):
        return len(self.n) + len(self.d)

"""Matrices of the users' elements of cachechild.py, computed without symfem."""

import numpy as np
import sympy


def user(points, at):
    ps = [sympy.Rational(p) for p in points]
    n = len(ps)
    dual = sympy.Matrix([[p**i for p in ps] for i in range(n)])
    inv = dual.inv()
    basis = np.array([[[float(sum(inv[i, j] * sympy.Rational(str(a)) ** j for j in range(n)))] for a in at] for i in range(n)])
    return dual, inv, basis

"""Child process of the cache check: answers requests given as JSON lines.

The directory of the cache is set by the parent through XDG_CACHE_HOME."""

import json
import os
import resource
import signal
import sys

OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
TREE = os.environ.get("SYMFEM_TREE", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, TREE)

import symfem  # noqa: E402
import sympy  # noqa: E402
from symfem import caching  # noqa: E402
from symfem.finite_element import CiarletElement  # noqa: E402
from symfem.functionals import PointEvaluation  # noqa: E402


def user_class(name, module, points):
    """A user's own element on the interval: point evaluations at the given points."""

    def init(self, reference, order):
        x = symfem.symbols.x[0]
        dofs = [PointEvaluation(reference, (sympy.Rational(p),), entity=(1, 0)) for p in points]
        CiarletElement.__init__(self, reference, order, [x**i for i in range(len(points))], dofs, 1, 1)

    return type(name, (CiarletElement,), {
        "__init__": init, "__module__": module, "names": ["c06 user element"], "references": ["interval"],
        "min_order": 0, "continuity": "L2", "value_type": "scalar", "last_updated": "2024",
    })  # fmt: skip


def matrix(m):
    return [[str(m[i, j]) for j in range(m.cols)] for i in range(m.rows)]


def flat(v):
    if isinstance(v, sympy.MatrixBase):
        return [float(v[i, j]) for i in range(v.rows) for j in range(v.cols)]
    if isinstance(v, (tuple, list)):
        return [b for a in v for b in flat(a)]
    return [float(v)]


def element_answer(e, what, points):
    out = {}
    for w in what:
        if w == "dual":
            out[w] = matrix(e.get_dual_matrix())
        elif w == "inv":
            out[w] = matrix(e.get_dual_matrix(inverse=True))
        else:
            x = symfem.symbols.x
            out[w] = [[flat(f.subs(x, tuple(sympy.Float(c) for c in p)).as_sympy()) for p in points] for f in e.get_basis_functions()]
    return out


def answer(r):
    if "limit" in r and r["limit"]:
        k, how = r["limit"]
        if how == "kill":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
    try:
        if r["op"] == "elem":
            cell, name, order, kw = r["cfg"]
            vs = None if r.get("verts") is None else tuple(tuple(sympy.Rational(c) for c in v) for v in r["verts"])
            return element_answer(symfem.create_element(cell, name, order, vertices=vs, **kw), r["what"], r["points_at"])
        if r["op"] == "user":
            c = user_class(r["name"], r["module"], r["points"])
            e = c(symfem.create_reference("interval"), len(r["points"]) - 1)
            return element_answer(e, r["what"], r["points_at"])
        m = sympy.Matrix([[sympy.sympify(c) for c in row] for row in r["matrix"]])
        if r["op"] == "save":
            caching.save_cached_matrix(r["type"], r["id"], m)
            return {}
        got = caching.load_cached_matrix(r["type"], r["id"], (r["rows"], r["cols"]))
        return {"matrix": None if got is None else matrix(got), "text": matrix(caching.matrix_from_string(caching.matrix_to_string(m)))}
    finally:
        if "limit" in r and r["limit"]:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def main():
    OUT.write(json.dumps({"ready": os.getpid()}) + "\n")
    OUT.flush()
    for line in sys.stdin:
        r = json.loads(line)
        if r["op"] == "quit":
            break
        try:
            out = {"ok": answer(r)}
        except Exception as e:
            import traceback

            out = {"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}
        OUT.write(json.dumps(out) + "\n")
        OUT.flush()


if __name__ == "__main__":
    main()

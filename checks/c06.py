"""C06: the on-disk matrix cache never changes any result."""

import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
from functools import lru_cache

from vlib import boot  # noqa: I001 (puts hypothesis on the path)

import numpy as np
from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, check

import sympy

RULE = (
    "a case is a history of element requests, cache damage, process restarts, concurrent requests and "
    "writes interrupted at a byte count, run against one cache directory by child processes; non-trivial "
    "if some request follows an earlier one that filled the cache; the oracle is the matrix computed with "
    "caching=False and the basis assembled from it"
)
CHILD = os.path.join(boot.VERIF, "vlib", "cachechild.py")
TIMEOUT = 120


class Child:
    def __init__(self, home):
        env = dict(os.environ, XDG_CACHE_HOME=home, SYMFEM_TREE=boot.TREE)
        self.p = subprocess.Popen([boot.PY, CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, bufsize=1)
        self.read()

    def send(self, r):
        self.p.stdin.write(json.dumps(r) + "\n")
        self.p.stdin.flush()

    def read(self):
        """The answer, or None when the process died."""
        ready, _, _ = select.select([self.p.stdout], [], [], TIMEOUT)
        if not ready:
            self.close()
            raise core.HarnessError("child does not answer")
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            return None
        return json.loads(line)

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


class World:
    """One cache directory and the processes that use it."""

    def __init__(self):
        self.home = tempfile.mkdtemp(prefix="c06-", dir=boot.SCRATCH)
        self.child = None
        self.second = None

    def get(self):
        if self.child is None:
            self.child = Child(self.home)
        return self.child

    def other(self):
        if self.second is None:
            self.second = Child(self.home)
        return self.second

    def restart(self):
        for c in (self.child, self.second):
            if c is not None:
                c.close()
        self.child = self.second = None

    def files(self):
        out = []
        for d, _, fs in os.walk(self.home):
            out += [os.path.join(d, f) for f in fs]
        return sorted(out)

    def dirs(self):
        return sorted(os.path.join(self.home, d) for d in os.listdir(self.home) if os.path.isdir(os.path.join(self.home, d)))

    def close(self):
        self.restart()
        shutil.rmtree(self.home, ignore_errors=True)


# ------------------------------------------------------------------ oracle
def points_at(cell):
    return [[float(c) for c in p] for p in num.sample_points(cell, 3)]


@lru_cache(None)
def expected(key):
    """(dual, inverse, basis values) of a request, computed with caching disabled."""
    r = json.loads(key)
    if r["op"] == "user":
        from vlib import cachemodel

        return cachemodel.user(r["points"], [p[0] for p in points_at("interval")])
    cell, name, order, kw = r["cfg"]
    vs = None if r.get("verts") is None else tuple(tuple(sympy.Rational(c) for c in v) for v in r["verts"])
    import symfem

    e = symfem.create_element(cell, name, order, vertices=vs, **kw)
    dual = e.get_dual_matrix(caching=False)
    inv = e.get_dual_matrix(inverse=True, caching=False)
    pts = r["points_at"]
    pv = num.Ev(e.get_polynomial_basis())(pts)
    M = np.array([[float(inv[i, j]) for j in range(inv.cols)] for i in range(inv.rows)])
    basis = np.einsum("ij,jpc->ipc", M, pv)
    return dual, inv, basis


def same_matrix(got, want):
    if len(got) != want.rows or any(len(r) != want.cols for r in got):
        return f"shape {len(got)}x{len(got[0]) if got else 0} instead of {want.rows}x{want.cols}"
    for i, r in enumerate(got):
        for j, s in enumerate(r):
            w = want[i, j]
            if s == str(w):
                continue
            d = sympy.sympify(s) - w
            if d == 0:
                continue
            if abs(sympy.N(d, 40)) > 1e-25 or sympy.sympify(s).has(sympy.Float) and not w.has(sympy.Float):
                return f"entry ({i}, {j}) is {s} instead of {w}"
    return None


def verify(r, ans, ctx):
    what = json.dumps({k: r[k] for k in r if k in ("cfg", "verts", "name", "module", "points")})
    check(ans is not None, f"the process died answering {what}")
    check("ok" in ans, f"the request {what} fails: {ans.get('error')} {ans.get('trace', '')[-300:]}")
    key = json.dumps({k: v for k, v in r.items() if k not in ("what", "limit", "name", "module")}, sort_keys=True)
    dual, inv, basis = expected(key)
    for w in r["what"]:
        got = ans["ok"][w]
        ctx.count()
        if w == "basis":
            check(num.allclose(np.array(got, dtype=float).reshape(basis.shape) if np.size(got) == basis.size else got, basis), f"{what}: wrong basis functions from the cache")
        else:
            bad = same_matrix(got, dual if w == "dual" else inv)
            check(bad is None, f"{what}: {w} matrix from the cache has {bad}")


# ------------------------------------------------------------------ operations
def request(op):
    r = dict(op)
    if op["op"] == "elem":
        cell = op["cfg"][0]
        if op.get("map"):
            r["verts"] = [[gen.js(c) for c in v] for v in gen.verts_of(op["map"], cell)]
            aff = gen.aff_of(op["map"])
            r["points_at"] = [[float(c) for c in p] for p in aff.np(np.array(points_at(cell)))]
        else:
            r["points_at"] = points_at(cell)
        r.pop("map", None)
    else:
        r["points_at"] = points_at("interval")
    return r


def damage(world, op):
    fs = world.files()
    if not fs:
        return False
    f = fs[op["file"] % len(fs)]
    rng = random.Random(op["salt"])
    kind = op["kind"]
    if os.path.isdir(f):
        return False
    data = open(f, "rb").read()
    if kind == "empty":
        data = b""
    elif kind == "delete":
        os.remove(f)
        return True
    elif kind == "row":  # whole rows lost: the wrong size
        rows = data.split(b";")
        if len(rows) < 2:
            return False
        data = b";".join(rows[: max(1, rng.randrange(len(rows)))])
    elif kind == "garbage":
        data = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
    elif kind == "operator":  # cut in the middle of an entry, leaving something unreadable
        data = data[: rng.randrange(len(data) + 1)] + b"*"
    elif kind == "bracket":
        k = rng.randrange(len(data) + 1)
        data = data[:k] + b"(" + data[k:]
    elif kind == "binary":
        k = rng.randrange(len(data) + 1)
        data = data[:k] + b"\xff\x00" + data[k + 1 :]
    elif kind == "directory":
        os.remove(f)
        os.mkdir(f)
        return True
    elif kind == "zeros":  # a file system that lost the contents but kept the length
        data = b"\x00" * max(1, len(data))
    with open(f, "wb") as h:
        h.write(data)
    return True


def prop(case, ctx):
    world = World()
    filled = set()
    hit = False
    try:
        for op in case["ops"]:
            ctx.label("op:" + op["op"] + (":" + op["kind"] if "kind" in op else "") + (":" + op["limit"][1] if op.get("limit") else ""))
            if op["op"] in ("elem", "user"):
                r = request(op)
                c = world.get()
                c.send(r)
                ans = c.read()
                if op.get("limit") and op["limit"][1] == "kill" and ans is None:
                    world.restart()
                    ctx.label("killed in a write")
                    continue
                verify(r, ans, ctx)
                k = json.dumps(op.get("cfg", [op.get("name"), op.get("points")]))
                hit = hit or k in filled
                filled.add(k)
            elif op["op"] == "race":
                r = request(dict(op, op="elem"))
                a, b = world.get(), world.other()
                a.send(r)
                b.send(r)
                verify(r, a.read(), ctx)
                verify(r, b.read(), ctx)
                hit = True
            elif op["op"] == "damage":
                damage(world, op)
            elif op["op"] == "restart":
                world.restart()
            elif op["op"] == "nodir":
                # the whole cache directory disappears while the process is running
                for d in world.dirs():
                    shutil.rmtree(d)
            elif op["op"] == "readonly":
                for d in world.dirs():
                    # a file in the place of the directory: nothing can be read or written
                    shutil.rmtree(d)
                    open(d, "w").close()
    finally:
        world.close()
    if not hit:
        ctx.trivial("no request after an earlier one for the same element")


# ------------------------------------------------------------------ many elements, one directory
def sweep(case, ctx):
    """All configurations of the list share one directory; asked twice, in different orders."""
    world = World()
    try:
        first = [request(dict(op="elem", cfg=c, what=["inv"], map=m)) for c, m in case["reqs"]]
        for order in (case["order"], list(reversed(case["order"]))):
            c = world.get()
            for i in order:
                r = dict(first[i % len(first)])
                r["what"] = ["inv", "dual"] if i % 3 == 0 else (["inv"] if i % 3 == 1 else ["basis", "inv"])
                c.send(r)
                verify(r, c.read(), ctx)
            world.restart()
    finally:
        world.close()
    ctx.label("sweep")


# ------------------------------------------------------------------ the same class with other arguments
def siblings(case, ctx):
    """Elements of one class, cell and order whose matrices differ do not load each other's matrix."""
    for cfgs in case["orders"]:
        mats = [elems.get(*c).get_dual_matrix(caching=False) for c in cfgs]
        pairs = [(i, j) for i in range(len(cfgs)) for j in range(i) if mats[i] != mats[j]]
        if not pairs:
            continue
        ctx.label(f"class:{type(elems.get(*cfgs[0])).__name__}", "siblings")
        for k in (range(len(cfgs)), reversed(range(len(cfgs)))):
            for i in k:
                ctx.count()
                m = elems.get(*cfgs[i], fresh=True).get_dual_matrix()
                check(m == mats[i], f"{elems.cfg_name(cfgs[i])}: the cached dual matrix is that of another element")
        return
    ctx.trivial("no order with different matrices")


def families(seed, quick):
    with open(os.path.join(boot.VERIF, "data", "dualcost.json")) as f:
        cost = json.load(f)
    lim = 1.2 if quick else 9
    fam = {}
    cls = {(r["cell"], r["name"]): r["cls"] for r in elems.table()}
    for r in elems.table() + elems.creatable():
        c = elems.cfg(r)
        t = cost.get(elems.cfg_name(c))
        if t is not None and t <= lim and (c[0], c[1]) in cls:
            fam.setdefault((cls[c[0], c[1]], c[0]), {}).setdefault(str(c[2]), []).append((t, c))
    rng = random.Random(seed)
    by = {}
    for k, orders in fam.items():
        use = []
        for o in orders.values():
            if len(o) > 1:
                o = [rng.sample(o, len(o))[0]] + sorted(o, key=lambda x: (x[0], str(x[1])))
                o = [x for i, x in enumerate(o) if x not in o[:i]]
                use.append(o[: 2 if quick and o[1][0] > 0.2 else 4])
        use.sort(key=lambda o: sum(t for t, _ in o))
        if use:
            by.setdefault(k[0], []).append((sum(t for t, _ in use[0]), k, use[:4]))
    for c, fs in sorted(by.items()):
        fs.sort(key=lambda x: (x[0], x[1]))
        for t, k, use in fs[:2] if quick else fs:
            yield f"siblings/{k[0]}/{k[1]}", {"orders": [[c for _, c in o] for o in use]}, sum(t for o in use for t, _ in o)


@st.composite
def transitions(draw):
    """Two transition elements that differ in one of their lists only."""
    cell = draw(st.sampled_from(["triangle", "tetrahedron"]))
    hi = 3
    kw = {"edge_orders": draw(st.lists(st.integers(1, hi), min_size=3 if cell == "triangle" else 6, max_size=3 if cell == "triangle" else 6))}
    which = "edge_orders"
    if cell == "tetrahedron":
        kw["face_orders"] = draw(st.lists(st.integers(1, hi), min_size=4, max_size=4))
        which = draw(st.sampled_from(["edge_orders", "face_orders"]))
        if which == "face_orders":
            kw[which][draw(st.integers(0, 3))] = 3
    k = draw(st.integers(1, 3))
    other = {**kw, which: draw(st.permutations(kw[which]))}
    return {"orders": [[[cell, "transition", k, kw], [cell, "transition", k, other]]]}


# ------------------------------------------------------------------ round trip of matrices
def entry():
    q = st.tuples(st.integers(-30, 30), st.integers(1, 12)).map(lambda t: f"Rational({t[0]},{t[1]})")
    big = st.integers(-(10**25), 10**25).map(str)
    root = st.tuples(q, st.integers(2, 30), st.integers(2, 5)).map(lambda t: f"{t[0]}*{t[1]}**Rational(1,{t[2]})")
    nested = st.tuples(q, q, st.integers(2, 12)).map(lambda t: f"sqrt({t[0]}**2+{t[1]}**2+sqrt({t[2]}))")
    other = st.sampled_from(["pi", "E", "I", "sqrt(3)*I", "pi**2/6", "GoldenRatio", "1/(1+sqrt(2))", "-sqrt(5)/5", "cos(1)", "sin(pi/7)", "log(2)", "(1+sqrt(5))/2", "2**Rational(-2,3)"])
    return st.one_of(q, q, root, st.integers(-3, 3).map(str), nested, big, other)


@st.composite
def matrices(draw):
    r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {
        "matrix": [[draw(entry()) for _ in range(c)] for _ in range(r)],
        "dr": draw(st.integers(-1, 1)), "dc": draw(st.integers(-1, 1)),
        "type": draw(st.sampled_from(["dual", "dualinv", "m"])),
        "id": draw(st.text(min_size=0, max_size=12)), "id2": draw(st.text(min_size=0, max_size=12)),
    }  # fmt: skip


def roundtrip(case, ctx):
    """matrix_to_string, matrix_from_string, save_cached_matrix and load_cached_matrix, in process."""
    from symfem import caching

    m = sympy.Matrix([[sympy.sympify(c) for c in row] for row in case["matrix"]])
    ctx.label(f"shape:{m.rows}x{m.cols}")
    back = caching.matrix_from_string(caching.matrix_to_string(m))
    strs = [[str(back[i, j]) for j in range(back.cols)] for i in range(back.rows)]
    bad = same_matrix(strs, m)
    check(bad is None, f"a matrix read back from its string has {bad}")
    if any(0xD800 <= ord(ch) <= 0xDFFF for ch in case["id"] + case["id2"]):
        return
    caching.save_cached_matrix(case["type"], case["id"], m)
    got = caching.load_cached_matrix(case["type"], case["id"], (m.rows, m.cols))
    check(got is not None, "a saved matrix is not found")
    bad = same_matrix([[str(got[i, j]) for j in range(got.cols)] for i in range(got.rows)], m)
    check(bad is None, f"a matrix loaded from the cache has {bad}")
    ctx.count(2)
    if case["dr"] or case["dc"]:
        miss = caching.load_cached_matrix(case["type"], case["id"], (m.rows + case["dr"], m.cols + case["dc"]))
        check(miss is None, "a matrix of another size is returned")
        ctx.label("size mismatch")
    if case["id"] != case["id2"]:
        # another identifier never gets this matrix: neither by itself nor after being saved
        n = m + sympy.ones(m.rows, m.cols)
        other = caching.load_cached_matrix(case["type"], case["id2"], (m.rows, m.cols))
        caching.save_cached_matrix(case["type"], case["id2"], n)
        again = caching.load_cached_matrix(case["type"], case["id"], (m.rows, m.cols))
        check(again is not None and same_matrix([[str(again[i, j]) for j in range(m.cols)] for i in range(m.rows)], m) is None, "saving another matrix changes this one")
        del other
    other_type = {"dual": "dualinv", "dualinv": "dual", "m": "dual"}[case["type"]]
    caching.save_cached_matrix(other_type, case["id"], -m)
    again = caching.load_cached_matrix(case["type"], case["id"], (m.rows, m.cols))
    check(again is not None and again == got, "saving a matrix of another type changes this one")


# ------------------------------------------------------------------ groups
def usable(r, lim):
    return r["cost"] < lim and "dual" not in r["name"] and r["map"] != "direct" and r["cls"] not in ("EnrichedGalerkin", "VectorEnrichedGalerkin", "EnrichedVectorGalerkin")


def requests(rows):
    @st.composite
    def f(draw):
        r = draw(st.sampled_from(rows))
        op = {"op": "elem", "cfg": elems.cfg(r), "what": draw(st.lists(st.sampled_from(["basis", "inv", "dual"]), min_size=1, unique=True))}
        if isinstance(r["verts"], float) and draw(st.integers(0, 2)) == 0:
            op["map"] = draw(gen.affine(geo.TDIM[r["cell"]]))
        return op

    return f()


@st.composite
def histories(draw, rows, n):
    pool = [draw(requests(rows)) for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for _ in range(draw(st.integers(3, n))):
        k = draw(st.integers(0, 13))
        if k <= 5:
            op = json.loads(json.dumps(draw(st.sampled_from(pool))))
            op["what"] = draw(st.lists(st.sampled_from(["basis", "inv", "dual"]), min_size=1, unique=True))
            ops.append(op)
        elif k == 6:
            op = json.loads(json.dumps(draw(st.sampled_from(pool))))
            op["limit"] = [draw(st.integers(0, 400)), draw(st.sampled_from(["kill", "kill", "error"]))]
            ops.append(op)
        elif k == 7:
            ops.append({"op": "restart"})
        elif k <= 10:
            ops.append({"op": "damage", "file": draw(st.integers(0, 7)), "salt": draw(st.integers(0, 10**6)), "kind": draw(st.sampled_from(KINDS))})
        elif k == 11:
            op = json.loads(json.dumps(draw(st.sampled_from(pool))))
            op["op"] = "race"
            ops.append(op)
        elif k == 12:
            pts = draw(st.sampled_from([["0", "1"], ["1/2", "1"], ["0", "1/3"], ["1/4", "3/4"]]))
            ops.append({"op": "user", "name": draw(st.sampled_from(["Lagrange", "Mine"])), "module": draw(st.sampled_from(["__main__", "mine", "symfemuser", "symfem_extra.elements"])), "points": pts, "what": ["inv", "basis"]})
        else:
            ops.append({"op": draw(st.sampled_from(["nodir", "readonly"]))})
    return {"ops": ops}


@st.composite
def crash(draw, rows):
    """Interrupted in a write, then asked again (with and without a restart)."""
    a = draw(requests(rows))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops.append(dict(a, what=["inv"], limit=[draw(st.integers(0, 300)), draw(st.sampled_from(["kill", "error"]))]))
    ops += [dict(a, what=["inv", "dual"]), {"op": "restart"}, dict(a, what=["basis", "inv"])]
    return {"ops": ops}


KINDS = ["garbage", "empty", "delete", "row", "operator", "bracket", "binary", "directory", "zeros"]


@st.composite
def damaged(draw, rows):
    """Filled, damaged, asked again by the same and by a new process."""
    a = draw(requests(rows))
    ops = [dict(a, what=["inv", "dual"])]
    for _ in range(2):
        for _ in range(draw(st.integers(1, 3))):
            ops.append({"op": "damage", "file": draw(st.integers(0, 3)), "salt": draw(st.integers(0, 10**6)), "kind": draw(st.sampled_from(KINDS))})
        if draw(st.booleans()):
            ops.append({"op": "restart"})
        ops.append(dict(a, what=["inv", "dual", "basis"]))
    return {"ops": ops}


@st.composite
def users(draw):
    """Users' classes sharing their names with each other and with elements of Symfem."""
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        pts = draw(st.sampled_from([["0", "1"], ["1/2", "1"], ["0", "1/3"], ["1/4", "3/4"], ["1", "0"]]))
        ops.append({"op": "user", "name": draw(st.sampled_from(["Lagrange", "Mine"])), "module": draw(st.sampled_from(["mine", "__main__", "symfem_extra.elements"])), "points": pts, "what": ["inv", "dual", "basis"]})
        if draw(st.booleans()):
            ops.append({"op": "restart"})
    ops.append({"op": "elem", "cfg": ["interval", "Lagrange", 1, {"variant": "equispaced"}], "what": ["inv", "basis"]})
    return {"ops": ops}


def make_groups(tier, seed):
    out = []
    q = tier == "quick"
    rows = [r for r in elems.table() if usable(r, 0.12)]
    small = [r for r in rows if r["dim"] >= 3]
    for k in range(8 if q else 40):
        out.append(Group(f"history/{k}", prop, histories(small, 10), 6 if q else 60, 10))
    for k in range(4 if q else 20):
        out.append(Group(f"crash/{k}", prop, crash([r for r in small if 3 <= r["dim"] <= 15]), 5 if q else 40, 9))
    for k in range(4 if q else 20):
        out.append(Group(f"damaged/{k}", prop, damaged(small), 8 if q else 60, 9))
    out.append(Group("users", prop, users(), 8 if q else 60, 9))
    out.append(Group("roundtrip", roundtrip, matrices(), 150 if q else 5000, 5))
    for k in range(2 if q else 10):
        out.append(Group(f"siblings/transition/{k}", siblings, transitions(), 10 if q else 60, 9))
    for name, case, t in families(seed, q):
        out.append(Group(name, siblings, [case], 1, t))
    # every configuration; related ones (same class) next to each other in one directory
    rows = [r for r in elems.table() if usable(r, 0.15 if q else 2)]
    rows.sort(key=lambda r: (r["cls"], r["cell"], r["name"], str(r["order"]), str(r["kwargs"])))
    rng = random.Random(seed)
    size = 24
    for s in range(0, len(rows), size):
        part = rows[s : s + size]
        reqs = [[elems.cfg(r), None] for r in part]
        for r in part:
            if isinstance(r["verts"], float) and r["verts"] < 0.1 and rng.randrange(2) == 0:
                d = geo.TDIM[r["cell"]]
                A = [[(rng.choice([1, 2, -1]) if i == j else (rng.choice([0, 1]) if j > i else 0)) for j in range(d)] for i in range(d)]
                reqs.append([elems.cfg(r), {"A": A, "b": [rng.choice([0, 1]) for _ in range(d)]}])
        order = list(range(len(reqs)))
        rng.shuffle(order)
        out.append(Group(f"sweep/{part[0]['cls']}-{s}", sweep, [{"reqs": reqs, "order": order}], 1, 8))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C06", make_groups, RULE, ["the kernel's rename is atomic", "a damaged file that is still a matrix of the right size cannot be recognised and is not generated"]))

"""C22: plots are well formed and drawn where the geometry says."""

import math
import os
import re
import shutil
import struct
import sys
import tempfile
import xml.etree.ElementTree as ET
from fractions import Fraction as Fr

from vlib import boot  # noqa: I001

from hypothesis import strategies as st

from vlib import core, elems, gen, geo, num
from vlib.core import Group, HarnessError, Violation, check

import numpy as np
import sympy

import symfem
import symfem.plotting as plotting
from symfem.functions import VectorFunction, parse_function_input
from symfem.piecewise_functions import PiecewiseFunction

RULE = (
    "a case is a generated sequence of primitives with generated options, an element with its DOF diagram or one of its "
    "basis function plots, or a reference with its entity diagram; the SVG and TikZ written are parsed and compared with "
    "an independent projection, bounding box and affine map; non-trivial if the picture has at least two items that are "
    "not at the same point"
)
AXES = ((1.0, -0.08), (0.5, 0.2), (0.0, 1.0))
ENTITY_COLOR = {0: "#FF8800", 1: "#44AAFF", 2: "#55FF00", 3: "#DD2299"}
FLOAT = r"(-?[0-9.]+(?:e[-+]?[0-9]+)?)"
SVG = "{http://www.w3.org/2000/svg}"


# ------------------------------------------------------------------ reading the output
def num_of(s):
    v = float(s)
    check(math.isfinite(v), f"the number {s!r} in the picture is not finite")
    return v


def read_svg(s):
    """(width, height, title, desc, items); an item is (kind, points, attributes)."""
    try:
        root = ET.fromstring(s)
    except ET.ParseError as e:
        raise Violation(f"the SVG is not well-formed XML: {e}: {s[:300]!r}")
    check(root.tag == SVG + "svg", f"the root of the SVG is {root.tag}")
    w, h = num_of(root.get("width")), num_of(root.get("height"))
    title = desc = None
    items = []
    for e in root:
        t = e.tag.replace(SVG, "")
        a = dict(e.attrib)
        if t == "title":
            check(title is None, "two titles")
            title = e.text or ""
        elif t == "desc":
            check(desc is None, "two descriptions")
            desc = e.text or ""
        elif t == "line":
            items.append(("line", [(num_of(a["x1"]), num_of(a["y1"])), (num_of(a["x2"]), num_of(a["y2"]))], a))
        elif t == "path":
            ns = [num_of(i) for i in re.findall(FLOAT, a["d"])]
            check(len(ns) == 8 and re.sub(r"[-\s,0-9.e]", "", a["d"]) == "MC", f"path {a['d']!r}")
            items.append(("bezier", list(zip(ns[::2], ns[1::2])), a))
        elif t == "circle":
            items.append(("circle", [(num_of(a["cx"]), num_of(a["cy"]))], a))
        elif t == "text":
            items.append(("text", [(num_of(a["x"]), num_of(a["y"]))], {**a, "text": "".join(e.itertext())}))
        elif t == "polygon":
            ns = [num_of(i) for i in re.split(r"[\s,]+", a["points"].strip())]
            items.append(("fill", list(zip(ns[::2], ns[1::2])), a))
        else:
            raise Violation(f"unexpected {t} in the SVG")
    return w, h, title, desc, items


def braces(s):
    depth = 0
    for m in re.finditer(r"\\.|[{}]", s, re.S):
        if m.group() == "{":
            depth += 1
        elif m.group() == "}":
            depth -= 1
            check(depth >= 0, f"unbalanced braces in {s[:200]!r}")
    check(depth == 0, f"unbalanced braces in {s[:200]!r}")


def style_of(opts, colors, key=None):
    """Colour used by a list of TikZ options."""
    for o in opts:
        if key is None and "=" not in o and not o.startswith("-"):
            return colors.get(o, o)
        if key is not None and o.startswith(key + "="):
            v = o[len(key) + 1 :]
            return colors.get(v, v)
    return None


def read_tikz(s):
    """(comment, items) of a TikZ picture; an item is (kind, points, attributes)."""
    env = re.findall(r"\\(begin|end)\{([^}]*)\}", s)
    check(env == [("begin", "tikzpicture"), ("end", "tikzpicture")], f"environments {env}")
    comment, _, rest = s.partition("\\begin{tikzpicture}")
    body, _, tail = rest.partition("\\end{tikzpicture}")
    check(not tail.strip(), f"text after the picture: {tail!r}")
    check(all(li.startswith("%") or not li.strip() for li in comment.split("\n")), f"before the picture: {comment!r}")
    body = re.sub(r"^\[([^\]]*)\]", "", body)
    braces(body)
    colors = {}
    for n, v in re.findall(r"\\definecolor\{([^}]*)\}\{HTML\}\{([^}]*)\}", body):
        check(n not in colors, f"colour {n} is defined twice")
        colors[n] = "#" + v
    body = re.sub(r"\\definecolor\{[^}]*\}\{HTML\}\{[^}]*\}", "", body)
    items = []
    pt = rf"\({FLOAT},{FLOAT}\)"
    pos = 0
    stmt = re.compile(
        rf"\s*\\(draw|fill|node)\[([^\]]*)\]\s*(?:"
        rf"(?P<bez>{pt} \.\. controls {pt} and {pt} \.\. {pt});"
        rf"|(?P<circ>{pt} circle \({FLOAT}pt\));"
        rf"|(?P<fill>{pt}(?: -- {pt})+ -- cycle);"
        rf"|(?P<line>{pt} -- {pt});"
        rf"|at (?P<node>{pt}) \{{)"
    )
    while body[pos:].strip():
        m = stmt.match(body, pos)
        check(m, f"TikZ statement {body[pos:pos + 120]!r}")
        pos = m.end()
        opts = m.group(2).split(",")
        for o in opts:
            check(not re.match(r"customcolor\d+$", o.split("=")[-1]) or o.split("=")[-1] in colors, f"colour {o} is not defined")
        kind = m.lastgroup if m.lastgroup else None
        kind = next(k for k in ("bez", "circ", "fill", "line", "node") if m.group(k) is not None)
        ns = re.findall(r"\(" + FLOAT + "," + FLOAT + r"\)", m.group(kind))
        p = [(num_of(a), num_of(b)) for a, b in ns]
        at = {"opts": opts, "stroke": style_of(opts, colors)}
        lw = style_of(opts, {}, "line width")
        if lw is not None:
            check(lw.endswith("pt"), f"line width {lw}")
            at["stroke-width"] = num_of(lw[:-2])
        if kind == "node":
            depth, q = 1, pos
            while depth:
                check(q < len(body), "node text does not end")
                if body[q] == "\\":
                    q += 1
                elif body[q] in "{}":
                    depth += 1 if body[q] == "{" else -1
                q += 1
            at["text"] = body[pos : q - 1]
            m2 = re.compile(r"\s*;").match(body, q)
            check(m2, f"node not ended: {body[q:q + 20]!r}")
            pos = m2.end()
            items.append(("text", p, at))
        elif kind == "line":
            at["arrow"] = any(o.startswith("-") for o in opts)
            items.append(("line", p, at))
        else:
            if kind == "circ":
                at["fill"] = style_of(opts, colors, "fill")
                at["r"] = num_of(re.search(FLOAT + "pt", m.group(kind)).group(1))
            items.append(({"bez": "bezier", "circ": "circle", "fill": "fill"}[kind], p, at))
    return comment, items


# ------------------------------------------------------------------ independent model
def flat(p, axes=AXES):
    p = [float(i) for i in p]
    if len(p) < 3:
        return tuple((p + [0.0, 0.0])[:2])
    return tuple(sum(axes[i][j] * p[i] for i in range(3)) for j in range(2))


class Model:
    """A picture as a list of (kind, flat points, attributes)."""

    def __init__(self, padding=25, scale=None, width=None, height=None, axes=AXES, dof_arrow_size=1):
        self.padding, self.scale, self.width, self.height, self.axes = padding, scale, width, height, axes
        self.arrow_size = dof_arrow_size
        self.items = []

    def add(self, kind, *pts, **at):
        self.items.append((kind, [flat(p, self.axes) for p in pts], at))

    def dof(self, p, direction, n, color, shifted=False, bold=True):
        """A numbered marker, with an arrow if there is a direction."""
        f = flat(p, self.axes)
        if direction is not None:
            d = np.array(flat(direction, self.axes))
            d = d / np.linalg.norm(d) / 8 * self.arrow_size
            s = np.array(f) + (d / 3 if shifted else 0)
            self.items.append(("arrow", [tuple(s), tuple(s + d)], {"stroke": color, "width": 4.0}))
            f = tuple(s)
        a = {"stroke": "#000000", "fill": color} if bold else {"stroke": color, "fill": "#FFFFFF"}
        self.items.append(("ncircle", [f], {**a, "number": n, "width": 4.0, "radius": 20.0}))

    def box(self):
        """Bounding box of the points of the items (of a Bezier curve: its ends)."""
        pts = [p for k, ps, a in self.items for p in ([ps[0], ps[3]] if k == "bezier" else ps)]
        xs, ys = zip(*pts)
        return min(xs), min(ys), max(xs), max(ys)

    def px(self):
        x0, y0, x1, y1 = self.box()
        if self.scale is not None:
            return float(self.scale)
        if self.width is not None:
            return self.width / (x1 - x0)
        if self.height is not None:
            return self.height / (y1 - y0)
        return 450.0


def near(a, b, size):
    return len(a) == len(b) and all(abs(i - j) <= 1e-7 * size for p, q in zip(a, b) for i, j in zip(p, q))


def compare(model, svg, tikz, ctx, what="", ordered=True, style=True):
    """Both outputs against the model."""
    x0, y0, x1, y1 = model.box()
    s = model.px()
    w, h, title, desc, items = read_svg(svg)
    pad = float(model.padding)
    size = max(1.0, w, h) if math.isfinite(w + h) else 1
    check(abs(w - (2 * pad + s * (x1 - x0))) <= 1e-7 * size, f"{what}width {w} instead of {2 * pad + s * (x1 - x0)}")
    check(abs(h - (2 * pad + s * (y1 - y0))) <= 1e-7 * size, f"{what}height {h} instead of {2 * pad + s * (y1 - y0)}")

    def m(p):
        return pad + (p[0] - x0) * s, h - pad - (p[1] - y0) * s

    _match(model, items, m, size, 1.0, True, ctx, what + "SVG: ", ordered, style)
    for k, ps, a in items:
        if k != "bezier" and k != "line":
            for p in ps:
                check(-1e-6 * size <= p[0] <= w + 1e-6 * size and -1e-6 * size <= p[1] <= h + 1e-6 * size, f"{what}{k} at {p} outside the picture")
    comment, titems = read_tikz(tikz)
    c = s / 200
    first = next((p for k, p, a in titems), None)
    if first is None:
        raise Violation(f"{what}no item in the TikZ picture")
    # one common translation: fixed by the minimum over all the items that contribute to the box
    xs, ys = zip(*[p for k, ps, a in titems for p in ([ps[0], ps[3]] if k == "bezier" else ps)])
    ox, oy = min(xs) - c * x0, min(ys) - c * y0
    _match(model, titems, lambda p: (ox + c * p[0], oy + c * p[1]), size / 200 + abs(ox) + abs(oy), 0.2, False, ctx, what + "TikZ: ", ordered, style)
    return title, desc, comment


def _match(model, items, m, size, lw, svg, ctx, what, ordered, style):
    """Every item of the model is in the output once, in order, and nothing else is."""
    left = list(items)

    def take(kind, pts, attrs):
        for i, (k, ps, a) in enumerate(left):
            if k == kind and near(ps, pts, size):
                if all(ok(a) for ok in attrs):
                    del left[i]
                    return i
            if ordered:
                break
        n = sum(1 for k, ps, a in items if k == kind and near(ps, pts, size))
        raise Violation(
            f"{what}{kind} at {[tuple(round(c, 4) for c in p) for p in pts]} is not drawn (as requested{', at its place in the order' if ordered else ''}); "
            f"{n} such at this place; next is {left[0] if left else None}"
        )

    def stroke(at):
        out = []
        if style:
            if "stroke" in at:
                out.append(lambda a: a.get("stroke") == at["stroke"])
            if "width" in at:
                out.append(lambda a: abs(float(a["stroke-width"]) - lw * at["width"]) < 1e-9 * max(1, at["width"]))
        return out

    for kind, pts, at in model.items:
        ps = [m(p) for p in pts]
        ctx.count()
        if kind == "line":
            take("line", ps, stroke(at) + ([] if svg else [lambda a: not a["arrow"]]))
        elif kind == "bezier":
            take("bezier", ps, stroke(at))
        elif kind == "arrow":
            i = take("line", ps, stroke(at) + ([] if svg else [lambda a: a["arrow"]]))
            if not svg:
                continue
            # the barbs follow the shaft
            barbs = []
            while i < len(left) and len(barbs) < 2 and left[i][0] == "line" and near([left[i][1][1]], [ps[1]], size):
                if near([pts[0]], [pts[1]], 1e-7) and (ordered or not near(left[i][1], ps, size)):
                    break  # an arrow of no length has no barbs (rounding errors may leave barbs at the point)
                check(not style or left[i][2].get("stroke") == at["stroke"], f"{what}a barb of the arrow {ps} is {left[i]}")
                barbs.append(left.pop(i))
            if not near([pts[0]], [pts[1]], 1e-7):
                check(len(barbs) == 2, f"{what}the arrow {ps} has {len(barbs)} barbs")
                d = np.array(ps[0]) - np.array(ps[1])
                d = d / np.linalg.norm(d)
                bs = [np.array(i[1][0]) - np.array(i[1][1]) for i in barbs]
                along = [float(b @ d) for b in bs]
                across = [float(b[0] * d[1] - b[1] * d[0]) for b in bs]
                if at.get("width", 1) > 1e-6:
                    check(min(along) > 0 and abs(along[0] - along[1]) < 1e-6 * size and abs(across[0] + across[1]) < 1e-6 * size
                          and abs(across[0]) > 0, f"{what}barbs of the arrow {ps}: {bs}")  # fmt: skip
        elif kind == "ncircle":
            r = lambda a: abs(float(a["r"]) - lw * at["radius"]) < 1e-6  # noqa: E731
            f = lambda a: a.get("fill") == at["fill"]  # noqa: E731
            take("circle", ps, stroke(at) + ([r, f] if style else []))
            n = re.escape(str(at["number"]))
            take("text", ps, [lambda a: re.search(rf"(^|[^0-9-]){n}$", a["text"].strip())])
        elif kind == "text":
            if svg:
                take("text", ps, [lambda a: a["text"] == at["text"], lambda a: not style or a.get("fill") == at["stroke"], lambda a: anchored(a["style"], at["anchor"])])
            else:
                take("text", ps, [lambda a: a["text"].endswith("$" + at["text"] + "$"), lambda a: not style or a["stroke"] == at["stroke"],
                                  lambda a: ("anchor=" + at["anchor"]) in a["opts"]])  # fmt: skip
        elif kind == "fill":
            if svg:
                take("fill", ps, [lambda a: not style or a["fill"] == at["stroke"] and float(a["opacity"]) == at["opacity"]])
            else:
                take("fill", ps, [lambda a: not style or a["stroke"] == at["stroke"] and f"opacity={at['opacity']}" in a["opts"]])
        else:
            raise HarnessError(kind)
    check(not left, f"{what}{len(left)} items too many: {left[:2]}")


def anchored(style, anchor):
    """The CSS of a text puts the point at the anchor."""
    css = dict(i.split(":", 1) for i in style.split(";") if ":" in i)
    v = {"n": ("hanging", "text-before-edge", "text-top"), "s": ("text-after-edge", "text-bottom", "auto", "alphabetic", "ideographic"), "": ("middle", "central")}
    h = {"east": "end", "west": "start", "": "middle"}
    parts = anchor.split()
    ns = "n" if "north" in parts else ("s" if "south" in parts else "")
    ew = next((i for i in ("east", "west") if i in parts), "")
    return css.get("dominant-baseline", "auto") in v[ns] and css.get("text-anchor", "start") == h[ew]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c22-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def read(fn):
    with open(fn) as f:
        return f.read()


def both(d, plot):
    """Call plot([a.svg, a.tex]) and read the two files."""
    a, b = os.path.join(d, "a.svg"), os.path.join(d, "b.tex")
    plot([a, b])
    check(sorted(os.listdir(d)) == ["a.svg", "b.tex"], f"files written: {sorted(os.listdir(d))}")
    return read(a), read(b)


# ------------------------------------------------------------------ pictures from primitives
COLS = ["#000000", "#FF8800", "#44AAFF", "#123456", "red", "blue", "orange", "#AAAAAA"]
TEXTS = ["x", "\\alpha", "a & b < c", "1 > 0", "\"q'", "e=mc^2", "<b>", "&amp;", "x_{12}"]
ANCHORS = ["center", "north", "south", "east", "west", "north east", "north west", "south east", "south west"]


@st.composite
def point(draw, dim):
    form = draw(st.sampled_from(["tuple", "list", "sympy", "function", "surd"]))
    return {"form": form, "p": [draw(gen.rats()) for _ in range(dim)]}


def the_point(c):
    v = [sympy.Rational(str(i)) for i in c["p"]]
    if c["form"] == "surd":
        return tuple(sympy.sqrt(2) * i / 2 for i in v)
    if c["form"] == "tuple":
        return tuple(int(i) if i.is_Integer else i for i in v)
    if c["form"] == "list":
        return list(v)
    if c["form"] == "function":
        return VectorFunction(tuple(v))
    return tuple(v)


def plain(c):
    return [float(Fr(str(i))) * (math.sqrt(2) / 2 if c["form"] == "surd" else 1) for i in c["p"]]


@st.composite
def picture_case(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3, 3, 0]))
    mixed = draw(st.integers(0, 3)) == 0
    n = draw(st.integers(1, 7))
    items = []

    def pt():
        return draw(point(draw(st.integers(0, 3)) if mixed else dim))

    for _ in range(n):
        k = draw(st.sampled_from(["line", "line", "bezier", "arrow", "ncircle", "math", "fill", "dof", "dofarrow"]))
        it = {"k": k, "pts": [pt() for _ in range({"line": 2, "bezier": 4, "arrow": 2, "ncircle": 1, "math": 1, "fill": draw(st.integers(3, 5)), "dof": 1, "dofarrow": 2}[k])]}
        it["color"] = draw(st.sampled_from(COLS))
        if draw(st.booleans()):
            it["width"] = draw(st.sampled_from([1, 2.5, 4, 8]))
        if k == "ncircle":
            it["n"] = draw(st.integers(0, 150))
            it["text_color"] = draw(st.sampled_from(COLS))
            it["fill_color"] = draw(st.sampled_from(COLS))
            it["radius"] = draw(st.sampled_from([5, 20, 12.5]))
        if k in ("dof", "dofarrow"):
            it["n"] = draw(st.integers(0, 150))
            it["bold"] = draw(st.booleans())
            it["shifted"] = draw(st.booleans())
        if k == "math":
            it["text"] = draw(st.sampled_from(TEXTS))
            it["anchor"] = draw(st.sampled_from(ANCHORS))
            it["font"] = draw(st.sampled_from([10, 20, 35, 44, 60]))
        if k == "fill":
            it["opacity"] = draw(st.sampled_from([1.0, 0.5, 0.25]))
        items.append(it)
    opts = {}
    o = draw(st.sampled_from([None, "scale", "width", "height"]))
    if o:
        opts[o] = draw(st.sampled_from([1, 100, 250, 450, 1000]))
    if draw(st.booleans()):
        opts["padding"] = draw(st.sampled_from([0, 10, 25, "15/2"]))
    if draw(st.integers(0, 3)) == 0:
        opts["axes_3d"] = [[draw(gen.rats()) for _ in range(2)] for _ in range(3)]
    if draw(st.integers(0, 2)) == 0:
        opts["dof_arrow_size"] = draw(st.sampled_from([1, 2, "1/2"]))
    for k in ("title", "desc"):
        if draw(st.integers(0, 2)) == 0:
            opts[k] = draw(st.sampled_from(TEXTS + ["A title", "50% of {x}"]))
    if draw(st.integers(0, 3)) == 0:
        opts["svg_metadata"] = "<!-- made here -->\n"
        opts["tex_comment"] = "% made here\n"
    return {"items": items, "opts": opts, "order": draw(st.integers(0, 5))}


def prop_picture(case, ctx):
    o = case["opts"]
    axes = AXES if "axes_3d" not in o else tuple(tuple(float(Fr(str(i))) for i in r) for r in o["axes_3d"])
    kw = {k: o[k] for k in ("scale", "width", "height", "title", "desc", "svg_metadata", "tex_comment") if k in o}
    mk = {k: o[k] for k in ("scale", "width", "height") if k in o}
    if "padding" in o:
        kw["padding"] = sympy.Rational(str(o["padding"]))
        mk["padding"] = float(Fr(str(o["padding"])))
    if "axes_3d" in o:
        kw["axes_3d"] = [tuple(sympy.Rational(str(i)) for i in r) for r in o["axes_3d"]]
    if "dof_arrow_size" in o:
        kw["dof_arrow_size"] = o["dof_arrow_size"] if isinstance(o["dof_arrow_size"], int) else sympy.Rational(o["dof_arrow_size"])
        mk["dof_arrow_size"] = float(Fr(str(o["dof_arrow_size"])))
    img = plotting.Picture(**kw)
    model = Model(axes=axes, **mk)
    for it in case["items"]:
        ps = [the_point(p) for p in it["pts"]]
        fs = [plain(p) for p in it["pts"]]
        k, c = it["k"], it["color"]
        wd = {"width": it["width"]} if "width" in it else {}
        at = {"stroke": c, "width": it.get("width", 4.0)}
        if k == "line":
            img.add_line(*ps, c, **wd)
            model.add("line", *fs, **at)
        elif k == "bezier":
            img.add_bezier(*ps, color=c, **wd)
            model.add("bezier", *fs, **at)
        elif k == "arrow":
            img.add_arrow(*ps, c, **wd)
            model.add("arrow", *fs, **at)
        elif k == "ncircle":
            img.add_ncircle(ps[0], it["n"], c, it["text_color"], it["fill_color"], it["radius"], **wd)
            model.add("ncircle", fs[0], **at, number=it["n"], fill=it["fill_color"], radius=it["radius"])
        elif k == "dof":
            img.add_dof_marker(ps[0], it["n"], c, it["bold"])
            model.dof(fs[0], None, it["n"], c, False, it["bold"])
        elif k == "dofarrow":
            if np.linalg.norm(flat(fs[1], axes)) < 1e-9:
                continue
            img.add_dof_arrow(ps[0], ps[1], it["n"], c, it["shifted"], it["bold"])
            model.dof(fs[0], fs[1], it["n"], c, it["shifted"], it["bold"])
        elif k == "math":
            img.add_math(ps[0], it["text"], c, it["font"], it["anchor"])
            model.add("text", fs[0], stroke=c, text=it["text"], anchor=it["anchor"])
        elif k == "fill":
            img.add_fill(ps, c, it["opacity"])
            model.add("fill", *fs, stroke=c, opacity=it["opacity"])
        ctx.label(k)
    if not model.items:
        ctx.trivial("nothing to draw")
        return
    x0, y0, x1, y1 = model.box()
    if "width" in o and x1 - x0 < 1e-9 or "height" in o and y1 - y0 < 1e-9:
        ctx.trivial("no extent to scale")
        return
    if x1 - x0 < 1e-9 and y1 - y0 < 1e-9:
        ctx.trivial("one point")
    for t in o:
        ctx.label("option " + t)
    with Scratch() as d:
        fns = [os.path.join(d, "a.svg"), os.path.join(d, "b.tex"), os.path.join(d, "c.d.svg")]
        png = case["order"] == 0 and 2 <= min(read_svg(img.as_svg())[:2]) <= max(read_svg(img.as_svg())[:2]) <= 4000
        if png:
            fns.append(os.path.join(d, "p.png"))
        if case["order"] % 2:
            fns = fns[::-1]
        img.save(list(fns) if len(fns) > 1 else fns[0])
        check(sorted(os.listdir(d)) == sorted(os.path.basename(f) for f in fns), f"files written: {os.listdir(d)}")
        svg, tikz = read(os.path.join(d, "a.svg")), read(os.path.join(d, "b.tex"))
        check(svg == read(os.path.join(d, "c.d.svg")) == img.as_svg(), "the SVG file is not as_svg()")
        check(tikz == img.as_tikz(), "the TeX file is not as_tikz()")
        if png:
            w, h = png_size(os.path.join(d, "p.png"))
            sw, sh = read_svg(svg)[:2]
            check(abs(w - sw) <= 1 and abs(h - sh) <= 1, f"the PNG has size {w}x{h}, the picture {sw}x{sh}")
            ctx.label("png")
        single = os.path.join(d, "s.svg" if case["order"] < 3 else "s.tex")
        img.save(single)
        check(read(single) == (svg if case["order"] < 3 else tikz), "a single file differs from a list of files")
        before = sorted(os.listdir(d))
        for bad in ("a.gif", "noextension", "a.svgz", "a.SVG.", "tex"):
            try:
                img.save(os.path.join(d, bad))
            except ValueError:
                pass
            else:
                raise Violation(f"saving to {bad!r} is not refused")
        check(sorted(os.listdir(d)) == before, "a refused name creates a file")
    title, desc, comment = compare(model, svg, tikz, ctx)
    check(title == o.get("title") and desc == o.get("desc"), f"title {title!r} and description {desc!r}")
    if "svg_metadata" in o:
        check(o["svg_metadata"].strip() in svg and comment.strip() == o["tex_comment"].strip(), f"metadata missing, comment {comment!r}")
    else:
        check("symfem" in svg.lower() and "symfem" in comment.lower(), "the default metadata is missing")
    # the numbers compute_scale returns are those of the picture, in every unit
    w, h = read_svg(svg)[:2]
    s = model.px()
    for unit, f in (("px", 1), ("mm", 20), ("cm", 200)):
        sc, hh, ww, m = img.compute_scale(unit)
        pad = float(model.padding)
        check(abs(float(sc) * f - s) < 1e-8 * s, f"scale in {unit}: {sc}")
        check(abs((float(ww) - 2 * pad) * f - (w - 2 * pad)) < 1e-7 * max(w, 1) and abs((float(hh) - 2 * pad) * f - (h - 2 * pad)) < 1e-7 * max(h, 1), f"size in {unit}: {ww}, {hh}")
        if unit == "px":
            check(abs(float(ww) - w) < 1e-7 * max(1, w) and abs(float(hh) - h) < 1e-7 * max(1, h), "compute_scale and the picture differ")
    try:
        img.compute_scale("inch")
    except ValueError:
        pass
    else:
        raise Violation("an unknown unit is not refused")


def png_size(fn):
    with open(fn, "rb") as f:
        b = f.read(24)
    check(b[:8] == b"\x89PNG\r\n\x1a\n", "not a PNG file")
    return struct.unpack(">II", b[16:24])


def prop_png(case, ctx):
    """Sizes of PNG files."""
    img = plotting.Picture(scale=case["scale"])
    img.add_line((0, 0), (case["w"], case["h"]))
    w, h = case["scale"] * case["w"] + 50, case["scale"] * case["h"] + 50
    with Scratch() as d:
        fn = os.path.join(d, "a.png")
        k, v = case["opt"]
        opts = {} if k is None else {k: v}
        img.save([fn], plot_options=opts)
        f = 1 if k is None else v if k == "png_scale" else v / w if k == "png_width" else v / h
        got = png_size(fn)
        check(abs(got[0] - w * f) <= 1 and abs(got[1] - h * f) <= 1, f"PNG of size {got} instead of {w * f}x{h * f}")
    ctx.count()


# ------------------------------------------------------------------ DOF diagrams
OPTS = [{}, {"scale": 300}, {"width": 400}, {"height": 300}, {"dof_arrow_size": 2}, {"padding": 10}]


def pic_opts(o):
    kw = dict(o)
    if "padding" in kw:
        kw["padding"] = sympy.Integer(kw["padding"])
    return kw


def entity_points(cell, dim, n, vs):
    return [vs[i] for i in geo.entities(cell, dim)[n]]


def in_hull(p, pts, tdim):
    """Is p in the convex hull of the points of a simplex or affine image of a tensor cell (exact least squares)?"""
    p = np.array([float(i) for i in p])
    v = np.array([[float(i) for i in q] for q in pts])
    from scipy.optimize import nnls

    a = np.vstack([v.T, np.ones(len(v))])
    b = np.append(p, 1.0)
    return nnls(a, b)[1] < 1e-9


def prop_dofs(case, ctx):
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    nm = elems.cfg_name(case["cfg"])
    ents = {}
    for dim in range(geo.TDIM[cell] + 1):
        for n in range(len(geo.entities(cell, dim))):
            for i in e.entity_dofs(dim, n):
                check(i not in ents, f"{nm}: DOF {i} belongs to two entities")
                ents[i] = (dim, n)
    check(sorted(ents) == list(range(e.space_dim)), f"{nm}: not every DOF belongs to an entity")
    pos, dirs = e.dof_plot_positions(), e.dof_directions()
    check(len(pos) == len(dirs) == e.space_dim, f"{nm}: {len(pos)} positions, {len(dirs)} directions")
    vs = geo.DEFAULT[cell]
    model = Model(**case["opts"])
    fp = [tuple(float(i) for i in p) for p in pos]
    for i, p in enumerate(fp):
        dim, n = ents[i]
        check(geo.TDIM[cell] == len(p), f"{nm}: position {p}")
        check(close_to_cell(cell, dim, n, p), f"{nm}: DOF {i} of entity ({dim}, {n}) is drawn at {p}, outside the entity")
        if dirs[i] is not None:
            ctx.label("direction")
    many = 0
    for i in range(e.space_dim):
        shared = any(pos[i] == pos[j] for j in range(e.space_dim) if j != i)
        many += shared
        model.dof(fp[i], dirs[i], i, ENTITY_COLOR[ents[i][0]], shifted=shared)
    for a, b in geo.EDGES[cell]:
        model.add("line", vs[a], vs[b], stroke="#000000", width=4.0)
    for f in geo.FACES[cell]:
        q = [vs[i] for i in f]
        model.add("fill", *(q if len(q) == 3 else [q[0], q[1], q[3], q[2]]), stroke="#FFFFFF", opacity=0.5)
    with Scratch() as d:
        svg, tikz = both(d, lambda f: e.plot_dof_diagram(f, **pic_opts(case["opts"])))
    compare(model, svg, tikz, ctx, nm + ": ", ordered=False)
    # edges lie below the markers of their DOFs
    ctx.label("dofs" if not many else "shared points")


def close_to_cell(cell, dim, n, p):
    return in_hull(p, entity_points(cell, dim, n, geo.DEFAULT[cell]), dim)


# ------------------------------------------------------------------ plots of functions
def lattice(ref, n):
    pts, pairs = ref.make_lattice_with_lines_float(n)
    return [tuple(float(i) for i in p) for p in pts], pairs


def val(f, p):
    v = f.subs(num.X[: len(p)], tuple(sympy.Float(float(i)) for i in p))
    v = v.as_sympy()
    return [float(i) for i in v] if isinstance(v, tuple) else float(v)


def pieces_of(f, ref):
    """[(smooth function, cell to sample, points per side)]"""
    if isinstance(f, PiecewiseFunction):
        out = []
        for shape, g in f.pieces.items():
            c = {1: {2: "interval"}, 2: {3: "triangle", 4: "quadrilateral"}, 3: {4: "tetrahedron"}}[f.tdim][len(shape)]
            out.append((g, symfem.create_reference(c, shape), 3))
        return out
    return [(f, ref, 6)]


def model_function(model, f, ref, vs_, scalar, ctx):
    """The curves or arrows showing the values of a function."""
    for g, r, n in pieces_of(f, ref):
        d = len(r.vertices[0])
        if scalar:
            pts, pairs = lattice(r, n)
            gr = [g.diff(x) for x in num.X[:d]]
            c = 0.625 * vs_
            vals = [val(g, p) for p in pts]
            grads = [[val(k, p) for k in gr] for p in pts]
            for i, j in pairs:
                pi, pj = np.array(pts[i]), np.array(pts[j])
                si = vals[i] + sum(a * b for a, b in zip(grads[i], (pj - pi) / 3))
                sj = vals[j] + sum(a * b for a, b in zip(grads[j], (pi - pj) / 3))
                q = [(*pi, c * vals[i]), (*(pi + (pj - pi) / 3), c * si), (*(pj + (pi - pj) / 3), c * sj), (*pj, c * vals[j])]
                model.add("bezier", *q, stroke="#FF8800")
        else:
            for p in r.make_lattice_float(n):
                p = np.array([float(i) for i in p])
                v = np.array(val(g, p)) * vs_ / 4
                model.add("arrow", p, p + v, stroke="#FF8800", width=float(np.linalg.norm(v)) * 40)
    return model


def frame(model, cell, vs, scalar, entity):
    ex = (0,) if scalar else ()
    vs = [tuple(float(i) for i in v) for v in vs]
    if entity is not None and entity[0] > 1:
        q = entity_points(cell, *entity, vs)
        if len(q) == 4 and not (entity[0] == 3):
            q = [q[0], q[1], q[3], q[2]]
        model.poly = [v + ex for v in q]
    for n, (a, b) in enumerate(geo.EDGES[cell]):
        model.add("line", vs[a] + ex, vs[b] + ex, stroke="#44AAFF" if entity == (1, n) else "#AAAAAA", width=4.0)


def prop_basis(case, ctx):
    """plot_basis_function: the graph of the function, the cell and its DOF."""
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    nm = elems.cfg_name(case["cfg"])
    n = case["n"] % e.space_dim
    fs = e.get_basis_functions()
    f = fs[n]
    if f.is_matrix:
        ctx.trivial("matrix-valued functions are not plotted")
        return
    scalar = f.is_scalar
    ref = e.reference
    big = 0.0
    for p in ref.make_lattice_float(6):
        for g in fs:
            big = max(big, float(np.linalg.norm(np.atleast_1d(val(g, [float(i) for i in p])))))
    vs_ = 1 / big
    model = Model(**case["opts"])
    ciarlet = hasattr(e, "dofs")
    entity = e.dofs[n].entity if ciarlet else None
    frame(model, cell, geo.DEFAULT[cell], scalar, entity)
    model_function(model, f, ref, vs_, scalar, ctx)
    ex = (0,) if scalar else ()
    if ciarlet:
        dof = e.dofs[n]
        p, dr = dof.dof_point(), dof.dof_direction()
        model.dof(tuple(float(i) for i in p) + ex, None if dr is None else tuple(float(i) for i in dr) + ex, n, "#DD2299", False, False)
    finish(model, cell, entity, scalar, lambda fn: e.plot_basis_function(n, fn, **pic_opts(case["opts"])), nm, ctx)


def finish(model, cell, entity, scalar, plot, nm, ctx):
    with Scratch() as d:
        svg, tikz = both(d, plot)
    fills = [i for i in read_svg(svg)[4] if i[0] == "fill"]
    if hasattr(model, "poly"):
        # the entity the DOF is attached to is filled (the outline of a 3D cell: its vertices in some order)
        check(len(fills) == 1, f"{nm}: {len(fills)} filled polygons")
        model.items.append(("fill", [], {"stroke": "#44AAFF", "opacity": 0.5}))
        model.items.pop()
        flatpoly = [flat(p, model.axes) for p in model.poly]
        model.items.append(("line", flatpoly, {}))
        x0, y0, x1, y1 = model.box()
        model.items.pop()
        s, h = None, read_svg(svg)[1]
        save = model.box
        model.box = lambda: (x0, y0, x1, y1)
        s = model.px()
        pts = [((p[0] - float(model.padding)) / s + x0, (h - float(model.padding) - p[1]) / s + y0) for p in fills[0][1]]
        check(len(pts) >= 3 and all(any(near([p], [q], 10) for q in flatpoly) for p in pts), f"{nm}: the filled polygon {pts} is not the entity {flatpoly}")
        if entity[0] == 2:
            check(len(pts) == len(flatpoly) and is_cyclic(pts, flatpoly), f"{nm}: the filled polygon {pts} is not the entity {flatpoly}")
        model.items.append(("fill", pts, {"stroke": "#44AAFF", "opacity": 0.5}))
        model.box = save
    else:
        check(not fills, f"{nm}: {len(fills)} filled polygons")
    compare(model, svg, tikz, ctx, nm + ": ", ordered=False)


def is_cyclic(pts, poly):
    """Same polygon: equal vertices in a cyclic order, in one of the two directions (poly of 4 is in lexicographic order)."""
    ring = list(poly)
    for r in (ring, ring[::-1]):
        for k in range(len(r)):
            if all(near([a], [b], 10) for a, b in zip(pts, r[k:] + r[:k])):
                return True
    return False


def prop_cell_plot(case, ctx):
    """plot_basis_function on a cell, for the elements that are not defined by functionals."""
    cell, name, order, kw = case["cfg"]
    e = elems.get(cell, name, order, kw)
    nm = elems.cfg_name(case["cfg"])
    n = case["n"] % e.space_dim
    vs = gen.verts_of(case["aff"], cell)
    ref = symfem.create_reference(cell, [tuple(sympy.Rational(str(i)) for i in v) for v in vs])
    f = e.map_to_cell(ref.vertices)[n]
    big = max(float(np.linalg.norm(np.atleast_1d(val(g, [float(i) for i in p])))) for p in e.reference.make_lattice_float(6) for g in e.get_basis_functions())
    model = Model()
    frame(model, cell, vs, f.is_scalar, None)
    model_function(model, f, ref, 1 / big, f.is_scalar, ctx)
    finish(model, cell, None, f.is_scalar, lambda fn: e.plot_basis_function(n, fn, cell=ref), nm, ctx)


def geo_id(d):
    return {"A": [[int(i == j) for j in range(d)] for i in range(d)], "b": [0] * d}


@st.composite
def function_case(draw, cell, kind, mapped=True):
    d = geo.TDIM[cell]
    rows = 1 if kind == "scalar" else d
    case = {"cell": cell, "f": [draw(gen.polynomial(d, 3)) for _ in range(rows)], "aff": draw(gen.affine(d)) if mapped else geo_id(d), "scale": draw(gen.positive())}
    if draw(st.booleans()):
        case["entity"] = draw(st.integers(0, d)), draw(st.integers(0, 11))
        case["point"] = [draw(gen.rats()) for _ in range(d)]
        case["n"] = draw(st.integers(0, 120))
        if draw(st.booleans()):
            case["dir"] = draw(st.lists(gen.rats(), min_size=d, max_size=d).filter(lambda v: any(Fr(str(i)) for i in v)))
    elif draw(st.booleans()):
        case["point"] = [draw(gen.rats()) for _ in range(d)]
        case["n"] = draw(st.integers(0, 120))
    case["opts"] = draw(st.sampled_from(OPTS))
    return case


def prop_function(case, ctx):
    """AnyFunction.plot on a generated cell."""
    cell = case["cell"]
    d = geo.TDIM[cell]
    fs = [gen.psym(p) for p in case["f"]]
    scalar = len(fs) == 1 and d > 1 or d == 1
    f = parse_function_input(fs[0] if scalar else tuple(fs))
    vs = gen.verts_of(case["aff"], cell)
    ref = symfem.create_reference(cell, [tuple(sympy.Rational(str(i)) for i in v) for v in vs])
    sc = float(Fr(str(case["scale"])))
    kw = {"value_scale": sympy.Rational(str(case["scale"]))}
    entity = None
    if "entity" in case:
        dim, k = case["entity"]
        entity = (dim, k % len(geo.entities(cell, dim)))
        kw["dof_entity"] = entity
    model = Model(**case["opts"])
    frame(model, cell, vs, scalar, entity)
    model_function(model, f, ref, sc, scalar, ctx)
    ex = (0,) if scalar else ()
    if "point" in case:
        kw["dof_point"] = tuple(sympy.Rational(str(i)) for i in case["point"])
        kw["dof_n"] = case["n"]
        dr = None
        if "dir" in case:
            kw["dof_direction"] = tuple(sympy.Rational(str(i)) for i in case["dir"])
            dr = tuple(float(i) for i in kw["dof_direction"]) + ex
            if np.linalg.norm(flat(dr)) < 1e-9:
                ctx.trivial("direction along the line of sight")
                return
        model.dof(tuple(float(i) for i in kw["dof_point"]) + ex, dr, case["n"], "#DD2299", False, False)
    ctx.label("scalar" if scalar else "vector")
    x0, y0, x1, y1 = model.box()
    if min(x1 - x0, y1 - y0) < 1e-6:
        ctx.trivial("flat")
        return
    finish(model, cell, entity, scalar, lambda fn: f.plot(ref, fn, **kw, **pic_opts(case["opts"])), cell, ctx)


# ------------------------------------------------------------------ entity diagrams
def prop_entities(case, ctx):
    cell = case["cell"]
    vs = gen.verts_of(case["aff"], cell) if case["aff"] else geo.DEFAULT[cell]
    ref = symfem.create_reference(cell, [tuple(sympy.Rational(str(i)) for i in v) for v in vs] if case["aff"] else None)
    diagram(ref, [tuple(float(i) for i in v) for v in vs], geo.TDIM[cell], lambda d: geo.entities(cell, d), case["opts"], cell, ctx)


def prop_dual(case, ctx):
    n = case["n"]
    ref = symfem.create_reference(f"dual polygon({n})")
    n *= 2  # every side is made of two fine edges
    check(len(ref.vertices) == n, f"{len(ref.vertices)} vertices")
    vs = [tuple(float(i) for i in v) for v in ref.vertices]
    edges = [tuple(e) for e in ref.edges]
    diagram(ref, vs, 2, lambda d: [[(i,) for i in range(n)], edges, [tuple(range(n))]][d], case["opts"], f"dual polygon({n})", ctx)


def diagram(ref, vs, tdim, ents, opts, nm, ctx):
    """One panel per dimension; the panels are translates of each other by a common step."""
    with Scratch() as d:
        svg, tikz = both(d, lambda f: ref.plot_entity_diagrams(f, **pic_opts(opts)))
    w, h, _, _, items = read_svg(svg)
    circles = [i for i in items if i[0] == "circle"]
    total = sum(len(ents(k)) for k in range(tdim + 1))
    check(len(circles) == total, f"{nm}: {len(circles)} numbers for {total} sub-entities")
    arrows_txt = [i for i in items if i[0] == "text" and not re.fullmatch(r"\d+", i[2]["text"])]
    check(sorted(i[2]["text"] for i in arrows_txt) == list("xyz"[:tdim]), f"{nm}: axes {[i[2]['text'] for i in arrows_txt]}")
    flatv = [np.array(flat(v)) for v in vs]

    def mid(k, n):
        return sum(flatv[i] for i in ents(k)[n]) / len(ents(k)[n])

    # the scale is measured by a least squares fit over all the panels: position = s * mid + origin + k * step
    rows, rhs = [], []
    placed = {}
    for i, (kind, ps, at) in enumerate(items):
        if kind != "circle":
            continue
        k = [j for j, c in ENTITY_COLOR.items() if c in (at["stroke"], at["fill"])]
        check(len(k) == 1 and k[0] <= tdim, f"{nm}: circle with the colours {at}")
        nxt = items[i + 1] if i + 1 < len(items) else ("",)
        check(nxt[0] == "text" and near(nxt[1], ps, 1) and re.fullmatch(r"\d+", nxt[2]["text"]), f"{nm}: no number in the circle at {ps}")
        n = int(nxt[2]["text"])
        check((k[0], n) not in placed and n < len(ents(k[0])), f"{nm}: the entity ({k[0]}, {n}) is numbered twice or does not exist")
        placed[k[0], n] = ps[0]
    for (k, n), p in placed.items():
        m = mid(k, n)
        rows += [[m[0], 1, 0, k, 0], [-m[1], 0, 1, 0, k]]
        rhs += [p[0], p[1]]
    a, b = np.array(rows), np.array(rhs)
    sol, _, _, _ = np.linalg.lstsq(a, b, rcond=None)
    check(np.abs(a @ sol - b).max() < 1e-6 * max(w, h), f"{nm}: the numbers are not at the midpoints of the entities (largest error {np.abs(a @ sol - b).max()})")
    check(sol[0] > 0, f"{nm}: scale {sol[0]}")
    check(abs(sol[3]) + abs(sol[4]) > 1e-6, f"{nm}: the panels are at the same place")
    lines = [i for i in items if i[0] == "line"]
    for k in range(tdim + 1):
        for n, e in enumerate(ents(1)):
            q = [(sol[0] * flatv[i][0] + sol[1] + k * sol[3], -sol[0] * flatv[i][1] + sol[2] + k * sol[4]) for i in e]
            hit = [i for i, (_, ps, at) in enumerate(lines) if near(ps, q, max(w, h)) or near(ps[::-1], q, max(w, h))]
            check(hit, f"{nm}: edge {n} is not drawn in panel {k}")
            del lines[hit[0]]
    check(len(lines) == 3 * tdim, f"{nm}: {len(lines)} lines besides the edges, instead of {tdim} arrows")
    ctx.count(total)
    # TikZ: the same picture, upside up
    _, ti = read_tikz(tikz)
    sc = [i for i in items if i[0] in ("circle", "text")]
    tc = [i for i in ti if i[0] in ("circle", "text")]
    check(len(sc) == len(tc), f"{nm}: {len(sc)} circles and texts in the SVG, {len(tc)} in TikZ")
    c0, t0 = np.array(sc[0][1][0]), np.array(tc[0][1][0])
    for s_, t_ in zip(sc, tc):
        v, u = np.array(s_[1][0]) - c0, np.array(t_[1][0]) - t0
        check(abs(v[0] / 200 - u[0]) < 1e-6 * w and abs(-v[1] / 200 - u[1]) < 1e-6 * h, f"{nm}: SVG and TikZ differ at {s_} / {t_}")


# ------------------------------------------------------------------ groups
def pick(i, cell):
    o = [o for o in OPTS if cell != "interval" or "height" not in o]
    return o[i % len(o)]


def make_groups(tier, seed):
    quick = tier == "quick"
    k = 1 if quick else 12
    out = [Group("picture", prop_picture, picture_case(), 60 * k, 5), Group("picture/more", prop_picture, picture_case(), 60 * k, 5)]
    png = st.fixed_dictionaries({"scale": st.sampled_from([50, 100]), "w": st.integers(1, 3), "h": st.integers(1, 3),
                                 "opt": st.sampled_from([[None, 0], ["png_scale", 2.0], ["png_scale", 0.5], ["png_width", 300], ["png_height", 200]])})  # fmt: skip
    out.append(Group("png", prop_png, png, 8 * k, 1))
    for cell in ("interval", "triangle", "quadrilateral"):
        out.append(Group(f"plot/{cell}/scalar", prop_function, function_case(cell, "scalar"), (6 if cell == "interval" else 3) * k, 4))
    for cell in ("triangle", "quadrilateral", "tetrahedron", "hexahedron"):
        out.append(Group(f"plot/{cell}/vector", prop_function, function_case(cell, "vector", cell != "hexahedron"), 4 * k if geo.TDIM[cell] == 2 else 2 * k, 4))
    for cell in geo.DEFAULT:
        if cell == "point":
            continue
        out.append(Group(f"entities/{cell}", prop_entities, [{"cell": cell, "aff": None, "opts": o} for o in OPTS if "dof_arrow_size" not in o and not (cell == "interval" and "height" in o)], 1, 1))
        if cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
            cs = st.fixed_dictionaries({"cell": st.just(cell), "aff": gen.affine(geo.TDIM[cell]), "opts": st.sampled_from([o for o in OPTS if "height" not in o])})
            out.append(Group(f"entities/{cell}/cells", prop_entities, cs, 4 * k, 1))
    out.append(Group("entities/dual", prop_dual, [{"n": n, "opts": {}} for n in range(3, 9)], 1, 2))
    seen = set()
    lim = 40 if quick else 150
    for i, r in enumerate(elems.table()):
        c = elems.cfg(r)
        if r["dim"] > lim or r["cell"].startswith("dual") or r["cell"] not in geo.DEFAULT:
            continue
        key = (r["cls"], r["cell"], min(r["order"], 2), str(r["doft"])) if quick else elems.cfg_name(c)
        if key in seen:
            continue
        seen.add(key)
        nm = elems.cfg_name(c)
        out.append(Group(f"dofs/{nm}", prop_dofs, [{"cfg": c, "opts": pick(i + seed, r["cell"])}], 1, 0.03 * r["dim"]))
    seen = set()
    for i, r in enumerate(elems.table()):
        c = elems.cfg(r)
        d = geo.TDIM.get(r["cell"], 0)
        if not d or r["cost"] > (0.5 if quick else 2) or r["dim"] > (20 if quick else 40):
            continue
        if "matrix" in str(r["map"]) or r["value"] not in ("scalar", "vector") or (r["value"] == "scalar" and d == 3) or r["cell"] in ("pyramid", "prism"):
            continue
        key = (r["cls"], r["cell"], min(r["order"], 1), str(r["doft"])) if quick else elems.cfg_name(c)
        if key in seen:
            continue
        seen.add(key)
        out.append(Group(f"basis/{elems.cfg_name(c)}", prop_basis, [{"cfg": c, "n": (seed + i) * 7 + j * 3, "opts": OPTS[(i + seed) % len(OPTS)]} for j in range(1 if quick else 4)], 1, 1.0))
    return out


if __name__ == "__main__":
    sys.exit(core.main("C22", make_groups, RULE))

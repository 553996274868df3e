"""Write data/registry.json: the documented families (README), their cells, aliases, classes and order ranges."""
import json
import os
import re

from vlib import boot

from symfem.create import _elementmap

out = []
cell = None
for line in open(os.path.join(boot.TREE, "README.md")):
    m = re.match(r"## (.*)", line)
    if m:
        cell = m.group(1).strip().lower()
    m = re.match(r"- (.*?)(?: \(alternative names: (.*)\))?$", line.strip())
    if m and cell:
        name, alt = m.group(1), m.group(2)
        if name in _elementmap and cell in _elementmap[name]:
            c = _elementmap[name][cell]

            def bound(a):
                v = getattr(c, a, None)
                return v.get(cell) if isinstance(v, dict) else v

            names = [name] + (alt.split(", ") if alt else [])
            extra = [n for n in c.names if n not in names and cell in _elementmap.get(n, {}) and _elementmap[n][cell] is c]
            for n in names:
                assert _elementmap[n][cell] is c, (n, cell)
            out.append(dict(cell=cell, names=names, undocumented=extra, cls=c.__name__, module=c.__module__.split(".")[-1], lo=bound("min_order"), hi=bound("max_order")))
n = sum(len(v) for v in _elementmap.values())
m = sum(len(r["names"]) + len(r["undocumented"]) for r in out)
print(len(out), "entries;", m, "names of", n, "registered;", [r["undocumented"] for r in out if r["undocumented"]])
json.dump(out, open(os.path.join(boot.VERIF, "data", "registry.json"), "w"), indent=0)

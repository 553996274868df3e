"""Elements used by the checks (with a per-group memo) and the configuration table."""

import json
import os

from . import boot

import symfem

_memo = {}


def clear():
    _memo.clear()


def get(cell, name, order, kwargs=None, vertices=None, fresh=False):
    kwargs = dict(kwargs or {})
    if fresh:
        return symfem.create_element(cell, name, order, vertices=vertices, **kwargs)
    k = json.dumps([cell, name, order, kwargs, str(vertices)], sort_keys=True)
    if k not in _memo:
        _memo[k] = symfem.create_element(cell, name, order, vertices=vertices, **kwargs)
    return _memo[k]


def cfg_name(c):
    kw = c[3] if len(c) > 3 else {}
    s = f"{c[0]}/{c[1]}/{c[2]}"
    if kw:
        s += "/" + ",".join(f"{k}={v}" for k, v in sorted(kw.items()))
    return s


_table = None


def table():
    """[{cell, name, order, kwargs, dim, cost(basis seconds), continuity, cls, map}]"""
    global _table
    if _table is None:
        with open(os.path.join(boot.VERIF, "data", "configs.json")) as f:
            _table = json.load(f)
    return _table


_creatable = None


def creatable():
    """Further configurations [{cell, name, order, kwargs, create, dim}] that can be created quickly,
    but whose basis takes long to compute."""
    global _creatable
    if _creatable is None:
        with open(os.path.join(boot.VERIF, "data", "creatable.json")) as f:
            _creatable = json.load(f)
    return _creatable


def select(max_cost, where=None):
    return [r for r in table() if r["cost"] <= max_cost and (where is None or where(r))]


def cfg(r):
    return [r["cell"], r["name"], r["order"], r["kwargs"]]

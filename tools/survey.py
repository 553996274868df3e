"""Run every group of a check and print every failure (python -m tools.survey c04 [regex] [tier])."""
import importlib
import multiprocessing as mp
import re
import sys

from vlib import boot  # noqa: I001

from vlib import core, elems

mod = importlib.import_module("checks." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else "."
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
gs = [g for g in mod.make_groups(tier, 1) if re.search(pat, g.name)]
R = core.Runner(sys.argv[1].upper(), tier, 1)
core.SHRINK_SECONDS = 3


def f(i):
    boot.private_cache_dir()
    elems.clear()
    return i, R.run_group(gs[i])


if __name__ == "__main__":
    n = 0
    with mp.get_context("fork").Pool(8) as p:
        for i, r in p.imap_unordered(f, range(len(gs)), chunksize=1):
            n += 1
            if r["failure"] or r["error"]:
                print(gs[i].name, "|", (r["failure"] or {}).get("message", "")[:300], (r["error"] or "")[:600], core._key((r["failure"] or {}).get("case"))[:300], flush=True)
            if r["inconclusive"]:
                print("inconclusive", gs[i].name)
    print(n, "groups")

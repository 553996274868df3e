"""Seconds get_dual_matrix (not inverted, not cached) takes: data/dualcost.json."""
import json
import multiprocessing as mp
import os
import signal
import time

from vlib import boot  # noqa: I001

from vlib import elems


def f(c):
    boot.private_cache_dir()
    elems.clear()

    def stop(*a):
        raise TimeoutError

    signal.signal(signal.SIGALRM, stop)
    signal.alarm(20)
    try:
        e = elems.get(*c)
        t = time.time()
        e.get_dual_matrix(caching=False)
        return c, round(time.time() - t, 3)
    except BaseException:
        return c, None
    finally:
        signal.alarm(0)


if __name__ == "__main__":
    cs = [elems.cfg(r) for r in elems.table() if r["map"] != "direct"] + [elems.cfg(r) for r in elems.creatable() if r["create"] < 0.6 and r["dim"] < 100]
    out = {}
    with mp.get_context("fork").Pool(8) as p:
        for c, t in p.imap_unordered(f, cs, chunksize=1):
            if t is not None:
                out[elems.cfg_name(c)] = t
    with open(os.path.join(boot.VERIF, "data", "dualcost.json"), "w") as fh:
        json.dump(dict(sorted(out.items())), fh, indent=0)
    print(len(cs), len(out))

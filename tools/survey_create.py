"""Write data/creatable.json: orders beyond data/configs.json at which an element can be created quickly."""
import json, multiprocessing as mp, os, signal, time
from vlib import boot  # noqa
from vlib import elems, num
import symfem

def f(job):
    cell, name, o, kw = job
    boot.private_cache_dir()
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(12)
    t = time.time()
    try:
        e = symfem.create_element(cell, name, o, **kw)
        c = time.time() - t
        n = len(e.get_polynomial_basis())
        return dict(cell=cell, name=name, order=o, kwargs=kw, create=round(c, 2), dim=n, total=round(time.time() - t, 2))
    except TimeoutError:
        return None
    except Exception as ex:
        return None
    finally:
        signal.alarm(0)

if __name__ == "__main__":
    have = {}
    for r in elems.table():
        if r["cell"].startswith("dual"): continue
        k = (r["cell"], r["name"], json.dumps(r["kwargs"], sort_keys=True))
        have.setdefault(k, set()).add(r["order"])
    jobs = []
    for (c, n, kw), os_ in have.items():
        kw = json.loads(kw)
        if "edge_orders" in kw: continue
        for o in range(max(os_) + 1, max(os_) + 6):
            jobs.append((c, n, o, kw))
    out = []
    with mp.Pool(8) as p:
        for r in p.imap_unordered(f, jobs, chunksize=1):
            if r and r["total"] < 4: out.append(r)
    out.sort(key=lambda r: (r["cell"], r["name"], str(r["kwargs"]), r["order"]))
    json.dump(out, open(os.path.join(boot.VERIF, "data", "creatable.json"), "w"), indent=0)
    print(len(jobs), len(out))

"""Set up the process before symfem is imported.

* symfem is imported from /repo's working tree (SYMFEM_TREE overrides it, for scratch copies);
* its cache directory is a fresh temporary one;
* no byte code is written next to the sources;
* hypothesis comes from the tooling venv (same Python), appended last on sys.path.
"""

import atexit
import os
import shutil
import sys
import tempfile

TREE = os.environ.get("SYMFEM_TREE", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PY = "/opt/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix="vsym-")
_owner = os.getpid()


def _clean():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "cache")
os.makedirs(os.environ["XDG_CACHE_HOME"], exist_ok=True)
if sys.path[0] != TREE:
    sys.path.insert(0, TREE)
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(HYP)
    import hypothesis  # noqa: F401

import symfem  # noqa: E402

_where = os.path.realpath(os.path.dirname(symfem.__file__))
if _where != os.path.realpath(os.path.join(TREE, "symfem")):
    print(f"HARNESS-ERROR: symfem imported from {_where}, not from {TREE}")
    sys.exit(3)


def private_cache_dir():
    """Give this (worker) process a matrix cache directory of its own."""
    import symfem.caching as c

    if hasattr(c, "CACHE_DIR"):
        c.CACHE_DIR = tempfile.mkdtemp(prefix="cache-", dir=SCRATCH)

"""Process set-up shared by all checks: run the code of /repo's working tree, freshly compiled, headless and
single-threaded per process. Import this module first."""
import atexit, os, shutil, sys, tempfile, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = tempfile.mkdtemp(prefix="verif-mc-")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")   # never trust a cache from another tree
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[v] = os.environ.get("VERIF_THREADS", "1")
os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
os.makedirs(os.environ["NUMBA_CACHE_DIR"], exist_ok=True)
sys.dont_write_bytecode = True
if os.environ.get("VERIF_INTERPRETED") == "1":
    os.environ["NUMBA_DISABLE_JIT"] = "1"
elif "NUMBA_DISABLE_JIT" in os.environ:
    del os.environ["NUMBA_DISABLE_JIT"]
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
np.seterr(all="ignore")

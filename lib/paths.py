"""Process setup shared by every check: environment, import paths, library shims.

Must be imported before numpy or hermespy.
"""
import os
import sys
import tempfile

REPO = os.environ.get("HERMES_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k, _v in {
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "RAY_USAGE_STATS_ENABLED": "0",
    "RAY_DEDUP_LOGS": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TQDM_DISABLE": "1",
}.items():
    os.environ.setdefault(_k, _v)

sys.dont_write_bytecode = True

# Scratch folder of this run; everything written by code under test goes here.
SCRATCH = tempfile.mkdtemp(prefix="hverif_")
os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
# never trust compiled files lying around in the working tree
sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
os.environ["TMPDIR"] = SCRATCH
tempfile.tempdir = SCRATCH

# The working tree under test goes first, hypothesis goes last: numpy and friends
# must come from the interpreter hermespy is installed in.
if REPO not in sys.path:
    sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    for _p in (
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    ):
        if os.path.isdir(os.path.join(_p, "hypothesis")) and _p not in sys.path:
            sys.path.append(_p)

"""Interpreter set-up shared by the runner and the workers.

The checks run with the interpreter of the code under test (/opt/venv), import
diffmah from /repo's working tree, and take hypothesis from the pre-installed
tool environment (appended last, so it never shadows a package of /opt/venv).
"""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
# one thread per worker: the runner already uses one process per core
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault(
    "XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


def setup():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if TOOL_SITE not in sys.path:
        sys.path.append(TOOL_SITE)

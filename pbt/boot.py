"""Process set-up: environment, access to Hypothesis, and the code under test.

Import this module before anything else.  It

* pins the environment (CPU JAX, one BLAS thread, headless matplotlib, no .pyc files
  in /repo);
* makes Hypothesis (installed in the tooling venv) importable from the interpreter
  which has bmi's own dependencies, *without* letting that venv's numpy, scipy, ...
  shadow the ones bmi runs with;
* checks that `bmi` comes from the working tree of /repo.
"""

import importlib.abc
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get("BMI_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src")

_ENV = {
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
}
for _k, _v in _ENV.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

_TOOL_DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
_ALLOWED = ("hypothesis", "_hypothesis_globals", "_hypothesis_ftz_detector", "sortedcontainers")


class _ToolFinder(importlib.abc.MetaPathFinder):
    """Resolves only Hypothesis and its pure-Python dependency from the tooling venv."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] not in _ALLOWED:
            return None
        if "." in fullname:
            return None  # submodules are found through the package's __path__
        return importlib.machinery.PathFinder.find_spec(fullname, _TOOL_DIRS)


sys.meta_path.append(_ToolFinder())
if SRC not in sys.path:
    sys.path.insert(0, SRC)


def import_bmi():
    import bmi

    path = os.path.realpath(bmi.__file__)
    if not path.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"bmi was imported from {path}, not from {SRC}")
    return bmi

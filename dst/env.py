"""Process set-up: single-threaded BLAS, no bytecode in /repo, dfols imported
from the tree under test (DST_REPO, default /repo)."""
import os
import sys
import warnings

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("DST_REPO", "/repo")
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import scipy.linalg  # noqa: E402,F401

import logging  # noqa: E402

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import dfols  # noqa: E402

if not os.path.abspath(dfols.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.stderr.write("harness error: dfols imported from %s, not from %s\n" % (dfols.__file__, REPO))
    sys.exit(2)

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import dfols.util, dfols.model, dfols.controller, dfols.solver, dfols.trust_region, dfols.params, dfols.diagnostic_info  # noqa: E402,E401

DFOLS_MODULES = [m for name, m in sorted(sys.modules.items()) if name == "dfols" or name.startswith("dfols.")]


def patch_everywhere(original, replacement):
    """Rebind every module-level name in dfols that refers to `original`."""
    n = 0
    for mod in DFOLS_MODULES:
        for name, val in list(vars(mod).items()):
            if val is original:
                setattr(mod, name, replacement)
                n += 1
    return n

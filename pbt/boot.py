"""Environment for every check: import the code under test from /repo's working
tree (nothing cached, nothing written there) and Hypothesis from the tool venv."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-pycache-verif")
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
if "MPLCONFIGDIR" not in os.environ or not os.path.isdir(os.environ["MPLCONFIGDIR"]):
    os.environ["MPLCONFIGDIR"] = tempfile.gettempdir()

sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(VT)
    import hypothesis  # noqa: F401

import importlib  # noqa: E402

import numpy as np  # noqa: E402

# a first import of these changes the warning filters; the library may import them as late as it likes
for _m in ("pandas", "scipy.linalg", "scipy.optimize", "scipy.integrate", "scipy.interpolate", "scipy.stats", "scipy.special", "scipy.ndimage", "scipy.spatial", "matplotlib.pyplot"):
    try:
        importlib.import_module(_m)
    except ImportError:
        pass

warnings.simplefilter("ignore")
np.seterr(all="ignore")

_CLASSES = {}


def classes():
    """The library's public classes, keyed by name."""
    if not _CLASSES:
        import rockphypy
        from rockphypy.Anisotropy import Anisotropy
        from rockphypy.AVO import AVO
        from rockphypy.BW import BW
        from rockphypy.EM import EM
        from rockphypy.Emp import Empirical
        from rockphypy.Fluid import Fluid
        from rockphypy.GM import GM
        from rockphypy.Perm import Permeability
        from rockphypy.QI import QI
        from rockphypy.utils import utils
        where = os.path.abspath(rockphypy.__file__)
        if not where.startswith(REPO + os.sep):
            raise RuntimeError("rockphypy imported from %s, not %s" % (where, REPO))
        for c in (Anisotropy, AVO, BW, EM, Empirical, Fluid, GM, Permeability, QI, utils):
            _CLASSES[c.__name__] = c
    return _CLASSES


def target(path):
    c, f = path.split(".")
    return getattr(classes()[c], f)

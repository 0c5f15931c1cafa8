"""Environment set-up shared by all checks: deterministic threads, import paths."""

import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The code under test.  /repo unless a development run points elsewhere.
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

sys.path.insert(0, SRC)

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_DEPS = os.path.join(VERIF, ".deps")


class _OnlyThese:
    """Finds only hypothesis and its dependency outside the project's own venv,
    so nothing else of that other environment can shadow the project's packages."""

    NAMES = {
        "hypothesis",
        "sortedcontainers",
        "_hypothesis_ftz_detector",
        "_hypothesis_globals",
    }

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name.split(".")[0] not in cls.NAMES or path is not None:
            return None
        from importlib.machinery import PathFinder

        return PathFinder.find_spec(name, [_DEPS, _VT])


try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.meta_path.append(_OnlyThese)
    import hypothesis  # noqa: F401


def load_elli():
    """Import the code under test and make sure it is the intended tree."""
    import warnings

    warnings.simplefilter("ignore")
    import elli

    here = os.path.realpath(elli.__file__)
    want = os.path.realpath(os.path.join(SRC, "elli")) + os.sep
    if not here.startswith(want):
        raise RuntimeError(f"elli imported from {here}, wanted {want}")
    return elli

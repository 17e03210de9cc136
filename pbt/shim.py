"""Makes hypothesis (installed in the tooling venv, same Python 3.12) importable next to the repo's own venv.

Only the listed top-level names are served from the tooling venv, everything else (numpy, networkx, ...) keeps coming
from the environment that the repository is built with.
"""
import importlib.machinery
import sys

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = {"hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals", "_hypothesis_pytestplugin",
          "_hypothesis_ftz_detector"}


class _Finder:
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is not None or name not in _NAMES:
            return None
        return importlib.machinery.PathFinder.find_spec(name, [_SITE], target)


def install():
    if _Finder not in sys.meta_path:
        sys.meta_path.append(_Finder)
    import hypothesis  # noqa: F401

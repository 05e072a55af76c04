"""Make the solver packages of the tooling venv importable inside /opt/venv's
python without exposing the rest of that venv (its numpy is a different one)."""
import importlib.machinery
import importlib.util
import sys

SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ALLOWED = {"z3", "sympy", "mpmath", "cvc5"}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [SITE])
        return None


if _Finder not in sys.meta_path:
    sys.meta_path.append(_Finder)

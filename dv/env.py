"""The shadow modules of the code under verification, built once per process."""
from __future__ import annotations

from . import loader, shims

_env = None


class Env:
    def __init__(self, names=("dataprofiler.profilers",)):
        self.shims = shims.default_shims()
        self.shadow = loader.Shadow(shims.dv, self.shims)
        for n in names:
            self.shadow.load(n)

    def mod(self, name):
        """module `dataprofiler.<name>` in its shadow form"""
        return self.shadow.load("dataprofiler." + name)

    def __getattr__(self, n):
        return self.mod("profilers." + n)


def env():
    global _env
    if _env is None:
        _env = Env()
    return _env

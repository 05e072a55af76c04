"""Shared vocabulary of the specifications: ghost data, abstract states."""
from __future__ import annotations

import numpy as np
import z3

from dv.core import Ctx, SymNum, SymBool, Unsupported, boolean, integer, isspecial, is_sym, num_expr, real, sqrt, to_real
from dv.series import Data, NumSeries, RawSeries, union
from dv.env import env

def N(e, kind="float"):
    return SymNum(e, kind, True)


def branch(e, label=None):
    return Ctx.cur.branch(e, label)


# ---------------------------------------------------------- observables of moments
def spec_mean(d):
    if branch(d.n == 0):
        return 0.0
    return N(d.P(1) / d.n)


def spec_variance(d, corrected):
    """population / sample variance; NaN when undefined"""
    if branch(d.n == 0):
        return float("nan")
    if corrected:
        if branch(d.n < 2):
            return float("nan")
        return N(d.M2 / (d.n - 1))
    return N(d.M2 / d.n)


def spec_stddev(d, corrected):
    v = spec_variance(d, corrected)
    return sqrt(v) if is_sym(v) else v


def spec_skew(d, corrected):
    n = N(d.n)
    if branch(d.n == 0):
        return float("nan")
    if corrected and branch(d.n < 3):
        return float("nan")
    if branch(d.M2 == 0, "spec: constant data"):
        return 0.0
    g = sqrt(n) * N(d.M3) / sqrt(N(d.M2) * N(d.M2) * N(d.M2))
    if corrected:
        g = sqrt(n * (n - 1)) * g / (n - 2)
    return g


def spec_kurt(d, corrected):
    n = N(d.n)
    if branch(d.n == 0):
        return float("nan")
    if corrected and branch(d.n < 4):
        return float("nan")
    if branch(d.M2 == 0, "spec: constant data"):
        g = N(z3.RealVal(-3))
    else:
        g = n * N(d.M4) / (N(d.M2) * N(d.M2)) - 3
    if corrected:
        g = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * (g + 3) - 3 * (n - 1))
    return g

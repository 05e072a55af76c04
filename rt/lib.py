"""Shared generators and oracles of the runtime contracts (real code, seeded inputs)."""
from __future__ import annotations

import contextlib
import io
import math
import os
import sys
import warnings
from fractions import Fraction

warnings.simplefilter("ignore")
os.environ.setdefault("TQDM_DISABLE", "1")
REPO = os.environ.get("DV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np
import pandas as pd
import dataprofiler as dp
from dataprofiler.profilers import profile_builder
from dv.runner import Skip

try:
    import tqdm as _t
    profile_builder.tqdm = lambda x, **k: x
except Exception:
    pass

import logging
logging.disable(logging.CRITICAL)


# ------------------------------------------------------------------ numbers
def numbers(rng, n, style=None):
    """list of python numbers (ints, or decimals with few digits)"""
    style = style or rng.choice(["int", "int", "dec", "zero", "neg", "const", "two", "wide", "sorted", "rev", "offset", "constzero"])
    if style == "int":
        return [rng.randint(-9, 9) for _ in range(n)]
    if style == "dec":
        k = rng.choice([1, 2, 3])
        return [round(rng.uniform(-20, 20), k) for _ in range(n)]
    if style == "zero":
        return [rng.choice([0, 0, rng.randint(-3, 3)]) for _ in range(n)]
    if style == "neg":
        return [-rng.randint(1, 40) for _ in range(n)]
    if style == "const":
        v = rng.choice([1, 5, -4, 2.5, 100])
        return [v] * n
    if style == "constzero":
        return [0] * n
    if style == "two":
        a, b = rng.randint(-5, 5), rng.randint(-50, 50)
        return [rng.choice([a, b]) for _ in range(n)]
    if style == "wide":
        return [rng.randint(-10 ** 6, 10 ** 6) for _ in range(n)]
    if style == "offset":
        o = rng.choice([1000, -5000])
        return [o + rng.randint(-30, 30) for _ in range(n)]
    v = sorted(rng.randint(-30, 60) for _ in range(n))
    return v if style == "sorted" else v[::-1]


def as_row(rng, v):
    """a textual form of v that parses back to v"""
    if isinstance(v, float) and v == int(v):
        return rng.choice([repr(v), f"{int(v)}.0", f"{int(v)}.00"])
    if isinstance(v, int):
        return str(v)
    return repr(v)


def split(rng, xs, k):
    """k consecutive parts (possibly empty)"""
    cuts = sorted(rng.randint(0, len(xs)) for _ in range(k - 1))
    return [xs[a:b] for a, b in zip([0] + cuts, cuts + [len(xs)])]


def tree(rng, batches, depth=0):
    """a random history of updates and merges whose leaves are exactly the batches, in order"""
    if len(batches) <= 1 or depth > 3 or rng.random() < 0.3:
        return {"u": batches}
    c = rng.randint(1, len(batches) - 1)
    if rng.random() < 0.7:
        tail = batches[c:] if rng.random() < 0.3 else []
        if tail:
            head = batches[:c]
            if len(head) >= 2:
                m = rng.randint(1, len(head) - 1)
                return {"m": [tree(rng, head[:m], depth + 1), tree(rng, head[m:], depth + 1)], "u": tail}
        return {"m": [tree(rng, batches[:c], depth + 1), tree(rng, batches[c:], depth + 1)], "u": []}
    return {"u": batches}


def rows(t):
    out = []
    for s in t.get("m", ()):
        out += rows(s)
    for b in t["u"]:
        out += b
    return out


def leaves(t):
    out = []
    for s in t.get("m", ()):
        out += leaves(s)
    out += t["u"]
    return out


def build(t, mk, upd):
    """play a history; the operands of every merge are compared before/after by P09, not here"""
    if "m" in t:
        a, b = (build(s, mk, upd) for s in t["m"])
        c = a + b
    else:
        c = mk()
    for b in t["u"]:
        r = upd(c, b)
        c = c if r is None else r
    return c


def col_update(c, b):
    c.update(pd.Series(b, dtype=object))


# ------------------------------------------------------------------ oracles
def close(a, b, rel=1e-6, abs_=1e-9):
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def moments(vals):
    """n, mean, central sums M2..M4 in exact arithmetic"""
    x = [Fraction(str(v)) if not isinstance(v, (int, Fraction)) else Fraction(v) for v in vals]
    n = len(x)
    if not n:
        return 0, Fraction(0), Fraction(0), Fraction(0), Fraction(0), Fraction(0)
    s = sum(x)
    mu = s / n
    return (n, s, mu) + tuple(sum((v - mu) ** k for v in x) for k in (2, 3, 4))


def expected_moments(vals, corrected=True):
    n, s, mu, *M = moments(vals)
    nan = float("nan")
    out = {"sum": float(s), "mean": float(mu), "variance": nan, "stddev": nan, "skewness": nan, "kurtosis": nan}
    if not n:
        return out
    M2, M3, M4 = (float(m) for m in M)
    if corrected:
        if n >= 2:
            out["variance"] = M2 / (n - 1)
    else:
        out["variance"] = M2 / n
    out["stddev"] = math.sqrt(out["variance"]) if out["variance"] == out["variance"] else nan
    if not corrected or n >= 3:
        g = 0.0 if M[0] == 0 else math.sqrt(n) * M3 / M2 ** 1.5
        out["skewness"] = math.sqrt(n * (n - 1)) * g / (n - 2) if corrected else g
    if not corrected or n >= 4:
        g = -3.0 if M[0] == 0 else n * M4 / M2 ** 2 - 3
        out["kurtosis"] = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * g + 6) if corrected else g
    return out


def compare(got, want, keys, rel=1e-6, abs_=1e-7):
    for k in keys:
        if not close(got[k], want[k], rel, abs_):
            return f"{k} = {got[k]!r}, of the whole data: {want[k]!r}"
    return None


# ------------------------------------------------------------------ profiles
def prof_options(**sets):
    o = dp.ProfilerOptions()
    base = {"*.data_labeler.is_enabled": False, "data_labeler.is_enabled": False, "multiprocess.is_enabled": False}
    base.update(sets)
    o.set(base)
    return o


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def frame(cols):
    """DataFrame of object columns from {name: [rows]} (None stays a null)"""
    return pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in cols.items()})


def profile(df, opts=None, **kw):
    with quiet():
        return dp.Profiler(df, options=opts or prof_options(), **kw)


def update(p, df, **kw):
    with quiet():
        p.update_profile(df, **kw)


def merge(a, b):
    with quiet():
        return a + b


NULLS = ["", "nan", "NaN", "None", "null", "  ", "-", "--"]

"""Runtime contracts of P01: moments of streamed/merged numeric columns."""
from .lib import *
from dataprofiler.profilers.int_column_profile import IntColumn
from dataprofiler.profilers.float_column_profile import FloatColumn
from dataprofiler.profilers.text_column_profile import TextColumn
from dataprofiler.profilers import profiler_options as po

KEYS = ("sum", "mean", "variance", "stddev", "skewness", "kurtosis")
KINDS = {"int": (IntColumn, po.IntOptions), "float": (FloatColumn, po.FloatOptions), "text": (TextColumn, po.TextOptions)}


def gen_column(rng, i):
    kind = rng.choice(["int", "float", "float", "text"])
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 11, 16, 25])
    k = rng.choice([1, 2, 2, 3, 3, 4, 6])
    parts = []
    if rng.random() < 0.4:       # different shapes per batch
        for j in range(k):
            parts.append(numbers(rng, rng.choice([0, 1, 2, 3, 5, 9])))
    else:
        parts = split(rng, numbers(rng, n), k)
    if kind == "int":
        parts = [[int(v) for v in p] for p in parts]
    if kind == "text":
        parts = [["x" * (abs(int(v)) % 40) for v in p] for p in parts]
    else:
        parts = [[as_row(rng, v) for v in p] for p in parts]
        if rng.random() < 0.3:
            parts = [[r for v in p for r in ([v] if rng.random() > .2 else [v, rng.choice(["a", "1x", "hello"])])] for p in parts]
    return {"kind": kind, "bias": rng.random() < 0.7, "hist": rng.random() < 0.25, "tree": tree(rng, parts)}


def values(kind, rs):
    if kind == "text":
        return [len(r) for r in rs]
    out = []
    for r in rs:
        try:
            v = Fraction(r)
        except (ValueError, ZeroDivisionError):
            continue
        if kind == "int" and v.denominator != 1:
            continue
        out.append(v)
    return out


def make(kind, bias, hist):
    cls, opt = KINDS[kind]
    o = opt()
    o.bias_correction.is_enabled = bias
    if not hist:
        o.histogram_and_quantiles.is_enabled = False
        if hasattr(o, "vocab"):
            o.vocab.is_enabled = False
    return cls("c", o)


def chk_column(p):
    with quiet():
        c = build(p["tree"], lambda: make(p["kind"], p["bias"], p["hist"]), col_update)
    vals = values(p["kind"], rows(p["tree"]))
    want = expected_moments(vals, p["bias"])
    got = {k: getattr(c, k) for k in KEYS}
    if c.match_count != len(vals):
        return f"match_count {c.match_count}, number of values {len(vals)}"
    m = compare(got, want, KEYS, 1e-6, 1e-6)
    if m:
        return m
    # reading the statistics does not change them
    return compare({k: getattr(c, k) for k in KEYS}, want, KEYS, 1e-6, 1e-6)


def gen_profile(rng, i):
    style = rng.choice(["int", "dec", "zero", "neg", "two", "sorted", "const", "offset"])
    k = rng.choice([1, 2, 3])
    parts = []
    for j in range(k):
        n = rng.choice([1, 2, 4, 6, 9, 14])
        parts.append([None if rng.random() < 0.15 else as_row(rng, v) for v in numbers(rng, n, style)])
    if not any(v is not None for v in parts[0]):
        parts[0][0] = "3"
    return {"tree": tree(rng, parts), "seed": rng.randint(0, 9), "bias": rng.random() < .8}


def chk_profile(p):
    """through the public entry points: Profiler, update_profile, +, report"""
    o = lambda: prof_options(**({} if p["bias"] else {"*.bias_correction.is_enabled": False}))

    def mk():
        return None

    def upd(c, b):
        df = frame({"c": b})
        if c is None:
            return profile(df, o())
        update(c, df)
        return c
    t = p["tree"]
    if any(not s["u"] and "m" not in s for s in [t]):
        raise Skip()
    if not _ok(t):
        raise Skip()
    prof = build(t, mk, upd)
    st = prof.report()["data_stats"][0]
    want = expected_moments([Fraction(r) for r in rows(t) if r is not None], p["bias"])
    kind = st["data_type"]
    if kind not in ("int", "float"):
        return None
    if kind == "int" and any("." in r for r in rows(t) if r is not None):
        raise Skip()
    return compare(st["statistics"], want, KEYS, 1e-6, 1e-6)


def _ok(t):
    if "m" in t:
        return all(_ok(s) for s in t["m"])
    return len(t["u"]) > 0 and len(t["u"][0]) > 0


CHECKS = {"column history": (gen_column, chk_column), "profile history": (gen_profile, chk_profile)}

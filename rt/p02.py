"""Runtime contracts of P02: extremes and counters."""
from .lib import *
from .p01 import gen_column as _gc, values, make, gen_profile, _ok
from dataprofiler.profilers.datetime_column_profile import DateTimeColumn
import datetime as _dt


def gen_column(rng, i):
    p = _gc(rng, i)
    return p


def chk_column(p):
    with quiet():
        c = build(p["tree"], lambda: make(p["kind"], p["bias"], p["hist"]), col_update)
    rs = rows(p["tree"])
    vals = values(p["kind"], rs)
    exp = {"min": float(min(vals)) if vals else None, "max": float(max(vals)) if vals else None}
    if p["kind"] != "text":
        exp["num_zeros"] = sum(v == 0 for v in vals)
        exp["num_negatives"] = sum(v < 0 for v in vals)
    exp["match_count"] = len(vals)
    exp["sample_size"] = len(rs)
    for _ in range(2):
        m = compare({k: getattr(c, k) for k in exp}, exp, exp, 1e-12, 0)
        if m:
            return m
        c.profile
    if p["kind"] != "text":
        r = c.data_type_ratio
        if rs and not close(r, len(vals) / len(rs)):
            return f"data_type_ratio {r}, matching share {len(vals)}/{len(rs)}"
    return None


def chk_profile(p):
    def upd(c, b):
        df = frame({"c": b})
        if c is None:
            return profile(df)
        update(c, df)
        return c
    t = p["tree"]
    if not _ok(t):
        raise Skip()
    prof = build(t, lambda: None, upd)
    st = prof.report()["data_stats"][0]
    vals = [Fraction(r) for r in rows(t) if r is not None]
    if st["data_type"] not in ("int", "float") or (st["data_type"] == "int" and any("." in r for r in rows(t) if r)):
        raise Skip()
    s = st["statistics"]
    exp = {"min": float(min(vals)), "max": float(max(vals)), "num_zeros": sum(v == 0 for v in vals),
           "num_negatives": sum(v < 0 for v in vals)}
    return compare(s, exp, exp, 1e-12, 0)


FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d", "%m/%d/%Y", "%m/%d/%Y %H:%M", "%Y%m%dT%H%M%S"]


def gen_dates(rng, i):
    k = rng.choice([1, 2, 3, 4])
    fm = rng.sample(FORMATS, rng.choice([1, 1, 2, 3]))
    parts = []
    for j in range(k):
        part = []
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            d = _dt.datetime(rng.choice([1990, 2000, 2001, 2020]), rng.randint(1, 12), rng.randint(1, 28))
            f = rng.choice(fm)
            part.append(d.strftime(f))
        if part and rng.random() < 0.2:
            part.append("nope")
        parts.append(part)
    return {"formats": fm, "tree": tree(rng, parts)}


def parse(s):
    for f in FORMATS:
        try:
            return _dt.datetime.strptime(s, f)
        except ValueError:
            pass
    return None


def chk_dates(p):
    with quiet():
        c = build(p["tree"], lambda: DateTimeColumn("c"), col_update)
    rs = rows(p["tree"])
    ds = [d for d in map(parse, rs) if d is not None]
    if c.match_count != len(ds) or c.sample_size != len(rs):
        return f"match_count/sample_size {c.match_count}/{c.sample_size}, expected {len(ds)}/{len(rs)}"
    lo, hi = c.profile["min"], c.profile["max"]
    if not ds:
        return None if lo is None and hi is None else f"min/max of no dates: {lo} {hi}"
    if lo not in rs or parse(lo) != min(ds):
        return f"earliest date {lo!r}, expected {min(ds)}"
    if hi not in rs or parse(hi) != max(ds):
        return f"latest date {hi!r}, expected {max(ds)}"
    used = set()
    for s in rs:
        for f in FORMATS:
            try:
                _dt.datetime.strptime(s, f)
                used.add(f)
                break
            except ValueError:
                pass
    if not set(c.profile["format"]) >= set() or len(set(c.profile["format"])) != len(c.profile["format"]):
        return f"date formats repeated: {c.profile['format']}"
    return None


CHECKS = {"column history": (gen_column, chk_column), "profile history": (gen_profile, chk_profile),
          "dates": (gen_dates, chk_dates)}

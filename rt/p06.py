"""Runtime contracts of P06: categories and their counts."""
from collections import Counter

from .lib import *
from dataprofiler.profilers.categorical_column_profile import CategoricalColumn
from dataprofiler.profilers.profiler_options import CategoricalOptions

WORDS = ["a", "b", "A", "aa", " a", "", "0", "0.0", "nan", "b c", "é", "~", "None", "True"]


def values(rng, n):
    s = rng.choice(["few", "few", "many", "skew", "unique", "one", "falsy"])
    if s == "few":
        return [rng.choice(WORDS) for _ in range(n)]
    if s == "falsy":
        return [rng.choice(["", "0", "x"]) for _ in range(n)]
    if s == "many":
        return [f"v{rng.randint(0, max(1, n // 2))}" for _ in range(n)]
    if s == "skew":
        return [f"v{int(rng.paretovariate(1)) % 15}" for _ in range(n)]
    if s == "unique":
        k = rng.randint(0, 5)
        return [f"u{i + k}" for i in range(n)]
    return ["k"] * n


def gen(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 9, 11, 12, 20, 50, 55, 60, 130])
    return {"tree": tree(rng, split(rng, values(rng, n), rng.choice([1, 2, 3, 4, 5]))), "top": rng.choice([None, None, 1, 2, 3, 20])}


def upd(c, b):
    r = c.update(pd.Series(b, dtype=object))
    if r is not c:
        raise AssertionError("update does not return the column")


def describe(c, want, n, top=None):
    """message if column c is not that of the counts `want` over n rows"""
    if c.sample_size != n:
        return f"sample size {c.sample_size} of {n}"
    if dict(c._categories) != dict(want) or dict(c.categorical_counts) != dict(want):
        return f"counts {dict(c._categories)}, are {dict(want)}"
    if sorted(c.categories) != sorted(want) or c.unique_count != len(want):
        return f"categories {c.categories}, count {c.unique_count}, are {list(want)}"
    if not close(c.unique_ratio, len(want) / n if n else 0, 1e-12):
        return f"unique ratio {c.unique_ratio}, {len(want)} of {n}"
    match = len(want) <= 10 or len(want) / n <= 0.2
    if bool(c.is_match) != match:
        return f"categorical: {c.is_match}, {len(want)} distinct of {n}"
    g, u = None, None
    if n:
        g = float(sum(Fraction(k, n) * (1 - Fraction(k, n)) for k in want.values()))
        u = float(Fraction(sum(k * (n - k) for k in want.values()), n * n - n)) if n > 1 else 0
    if not close(c.gini_impurity, g, 1e-9, 1e-12):
        return f"gini {c.gini_impurity}, is {g}"
    if not close(c.unalikeability, u, 1e-9, 1e-12):
        return f"unalikeability {c.unalikeability}, is {u}"
    p = c.profile
    if p["categorical"] != match or p["statistics"]["unique_count"] != len(want):
        return f"profile {p}"
    if match:
        cc = p["statistics"]["categorical_count"]
        k = len(want) if top is None else min(top, len(want))
        if len(cc) != k or any(want.get(x) != v for x, v in cc.items()):
            return f"reported counts {cc}, are {dict(want)}, {top} asked for"
        if list(cc.values()) != sorted(want.values(), reverse=True)[:k]:
            return f"reported counts {cc} are not the {k} most frequent of {dict(want)} in order"
        if sorted(p["statistics"]["categories"]) != sorted(want):
            return f"reported categories {p['statistics']['categories']}"
    return None


def chk(p):
    def mk():
        o = CategoricalOptions()
        o.top_k_categories = p["top"]
        return CategoricalColumn("c", o)
    with quiet():
        c = build(p["tree"], mk, upd)
        v = rows(p["tree"])
        return describe(c, Counter(v), len(v), p["top"])


# -------------------------------------------------------------- stop condition
def gen_stop(rng, i):
    n = rng.choice([3, 6, 10, 20, 40])
    return {"parts": [b for b in split(rng, values(rng, n), rng.choice([1, 2, 3, 4]))], "max": rng.choice([0, 1, 5, 10, 15, 30]),
            "ratio": rng.choice([0, 0.1, 0.2, 0.5, 0.9, 1.0]), "merge": rng.random() < .5, "k": rng.randint(0, 3)}


def chk_stop(p):
    def mk():
        o = CategoricalOptions()
        o.max_sample_size_to_check_stop_condition, o.stop_condition_unique_value_ratio = p["max"], p["ratio"]
        return CategoricalColumn("c", o)

    class Ref:
        def __init__(s):
            s.v, s.at = [], None

        def test(s):
            if s.at is None and s.v and len(s.v) >= p["max"] and len(set(s.v)) / len(s.v) >= p["ratio"]:
                s.at = (len(s.v), len(set(s.v)))

        def upd(s, b):
            if b and s.at is None:
                s.v = s.v + b
                s.test()

        def add(s, o):
            r = Ref()
            if s.at or o.at:
                big = s if len(s.v) > len(o.v) else o
                r.v, r.at = big.v, big.at or (len(big.v), len(set(big.v)))
            else:
                r.v = s.v + o.v
                r.test()
            return r
    parts = p["parts"]
    with quiet():
        c, ref = mk(), Ref()
        k = p["k"] if p["merge"] else len(parts)
        for b in parts[:k]:
            upd(c, b)
            ref.upd(b)
        if p["merge"]:
            d, rd = mk(), Ref()
            for b in parts[k:]:
                upd(d, b)
                rd.upd(b)
            if not ref.v and not rd.v:
                return None
            c, ref = c + d, ref.add(rd)
            upd(c, parts[0])
            ref.upd(parts[0])
    if ref.at is None:
        return describe(c, Counter(ref.v), len(ref.v))
    n, d = ref.at
    got = (c.sample_size, c.unique_count, dict(c._categories), bool(c.is_match))
    if got != (n, d, {}, False):
        return f"stopped at {n} rows with {d} distinct values: (rows, distinct, categories, categorical) = {got}"
    if not close(c.unique_ratio, d / n):
        return f"stopped at ratio {d / n}: {c.unique_ratio}"
    return None


# -------------------------------------------------------------- count-min sketch
def gen_cms(rng, i):
    n = rng.choice([5, 20, 60, 150])
    v = [x or "e" for x in values(rng, n)]         # the sketch does not take empty strings (they are nulls in a profile)
    if rng.random() < .6:
        v = [rng.choice(["hot", "warm"]) if rng.random() < .5 else f"c{rng.randint(0, 60)}" for _ in range(n)]
    return {"tree": tree(rng, split(rng, v, rng.choice([1, 1, 2, 3, 4]))), "h": rng.choice([2, 3, 5, 10, 100]),
            "err": rng.choice([0.01, 0.3]), "h2": rng.choice([None, 4])}


def chk_cms(p):
    def mk():
        o = CategoricalOptions()
        o.cms, o.cms_confidence, o.cms_relative_error, o.cms_max_num_heavy_hitters = True, 0.9, p["err"], p["h"]
        return CategoricalColumn("c", o)
    with quiet():
        c = build(p["tree"], mk, upd)
    v = rows(p["tree"])
    want = Counter(v)
    if c.sample_size != len(v):
        return f"sample size {c.sample_size} of {len(v)}"
    for x, k in c._categories.items():
        if k < want[x]:
            return f"{x}: estimate {k} below its count {want[x]}"
        if p["err"] == 0.01 and x not in want:
            return f"{x} never occurred"
    for x, k in want.items():
        if k * p["h"] >= len(v) and x not in c._categories:
            return f"{x} occurs {k} of {len(v)} times, {p['h']} heavy hitters: not listed in {dict(c._categories)}"
    for x, k in c._categories.items():
        if k * p["h"] < len(v) * 0.999999:
            return f"{x} with estimate {k} of {len(v)} rows is no heavy hitter (1/{p['h']})"
        if k > c.sample_size:
            return f"{x}: estimate {k} above the number of rows"
    return None


def gen_mix(rng, i):
    return {"a": rng.random() < .5, "c": rng.choice([0.9, 0.99]), "v": values(rng, 6)}


def chk_mix(p):
    """a sketch and an exact column, or sketches of different shape, do not merge"""
    def mk(cms, conf=0.9):
        o = CategoricalOptions()
        o.cms, o.cms_confidence = cms, conf
        o.cms_relative_error = 0.1
        c = CategoricalColumn("c", o)
        upd(c, p["v"])
        return c
    for x, y in ((mk(True), mk(False)), (mk(False), mk(True)), (mk(True, 0.7), mk(True, 0.999))):
        try:
            x + y
        except TypeError as e:
            return f"merging incompatible columns: TypeError {e}"
        except Exception:
            continue
        return "incompatible columns merge"
    return None


# -------------------------------------------------------------- in a profile
def gen_prof(rng, i):
    n = rng.choice([4, 12, 40])
    v = [x for x in values(rng, n)]
    v = [x for x in v if x.strip() and x not in ("nan", "None")] or ["k"]
    return {"v": v, "cut": rng.randint(0, len(v)), "how": rng.choice(["one", "update", "merge"]), "top": rng.choice([None, 2])}


def chk_prof(p):
    o = prof_options(**{"correlation.is_enabled": False, "category.top_k_categories": p["top"]})
    v, k = p["v"], p["cut"]
    if p["how"] == "one" or k in (0, len(v)):
        pr = profile(frame({"a": v}), o)
    elif p["how"] == "update":
        pr = profile(frame({"a": v[:k]}), o)
        update(pr, frame({"a": v[k:]}))
    else:
        pr = merge(profile(frame({"a": v[:k]}), o), profile(frame({"a": v[k:]}), o))
    st = pr.report()["data_stats"][0]
    want = Counter(v)
    s = st["statistics"]
    if s["unique_count"] != len(want) or not close(s["unique_ratio"], len(want) / len(v), 1e-3):
        return f"unique {s['unique_count']} {s['unique_ratio']}, is {len(want)} of {len(v)}"
    if bool(st["categorical"]) != (len(want) <= 10 or len(want) / len(v) <= 0.2):
        return f"categorical {st['categorical']}"
    if st["categorical"]:
        cc = s["categorical_count"]
        m = len(want) if p["top"] is None else min(p["top"], len(want))
        if list(cc.values()) != sorted(want.values(), reverse=True)[:m] or any(want[x] != y for x, y in cc.items()):
            return f"categorical_count {cc}, counts {dict(want)}"
    return None


CHECKS = {"categories": (gen, chk), "stop condition": (gen_stop, chk_stop), "count-min sketch": (gen_cms, chk_cms),
          "incompatible columns": (gen_mix, chk_mix), "categories in profiles": (gen_prof, chk_prof)}

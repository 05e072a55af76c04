"""Runtime contracts of P08: the laws of diff."""
import copy
import datetime
from collections import Counter

import scipy.stats

from dataprofiler.profilers import profiler_utils as U
from dataprofiler.profilers import CategoricalColumn, DateTimeColumn, FloatColumn, IntColumn, OrderColumn, TextColumn
from .lib import *

SAME = "unchanged"


def isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def num(a, b):
    """the law for numbers"""
    if a is None and b is None:
        return SAME
    if a is None or b is None:
        return [a, b]
    if isnan(a) and isnan(b):
        return SAME
    return SAME if a == b else a - b


def eq(x, y, tol=1e-9):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return type(x) is type(y) and x == y
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(eq(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(eq(x[k], y[k], tol) for k in x)
    if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)):
        return close(x, y, tol, tol)
    return x == y


def ok_list(d, a, b):
    """the law for lists: [only in a, shared, only in b], as multisets"""
    if a is None or b is None:
        return eq(d, SAME if a is b else [a, b])
    ca, cb = Counter(a), Counter(b)
    if ca == cb:
        return d == SAME
    return isinstance(d, list) and len(d) == 3 and Counter(d[0]) == ca - cb and Counter(d[1]) == ca & cb and Counter(d[2]) == cb - ca


def date(a, b):
    if a is None and b is None:
        return SAME
    if a is None or b is None:
        return [x and x.strftime("%x %X") for x in (a, b)]
    if a == b:
        return SAME
    return "+" + str(a - b) if a > b else "-" + str(b - a)


# ---------------------------------------------------------------------- helpers
def val(rng, depth=0, k=None):
    k = rng.randrange(8 if depth < 2 else 6) if k is None else k
    if k < 2:
        return rng.randint(-3, 3)
    if k == 2:
        return rng.choice([.5, 1.5, float("nan"), 0.0, 2.0, -1.25])
    if k == 3:
        return rng.choice(["a", "b", ""])
    if k == 4:
        return [rng.randint(0, 3) for _ in range(rng.randint(0, 4))]
    if k == 5:
        return {"$date": rng.randint(-4, 4)}
    return dic(rng, depth + 1)


def dic(rng, depth=0):
    """a key has one kind of value"""
    ks = {"p": [0, 2], "q": [3], "r": [4], "s": [5], "t": [6] if depth < 2 else [1], "u": [2]}
    return {k: val(rng, depth, rng.choice(ks[k])) for k in rng.sample(sorted(ks), rng.randint(0, 4))}


def live(v):
    if isinstance(v, dict):
        if "$date" in v:
            return datetime.datetime(2000, 3, 1) + datetime.timedelta(hours=v["$date"] * 13)
        return {k: live(x) for k, x in v.items()}
    return v


def gen_util(rng, i):
    n = rng.randint(0, 5)
    pair = []
    for _ in range(2):
        pair.append([rng.choice(["x", "y", "z", 1, 2, 1.5]) for _ in range(n if rng.random() < .5 else rng.randint(0, 5))])
    d = [dic(rng), dic(rng)]
    for k in d[0]:
        if k in d[1] and rng.random() < .4:
            d[1][k] = d[0][k]
    return {"n": [rng.choice([None, 0, 1, -2, 2.5, float("nan"), 10 ** 12]) for _ in range(2)], "l": pair, "d": d,
            "none": rng.choice([[], [], [], [0], [1], [0, 1]]),
            "m": [[[rng.choice([0, 1, .5, float("nan")]) for _ in range(2)] for _ in range(2)] for _ in range(2)], "dt": [rng.choice([None, rng.randint(-5, 5)]) for _ in range(2)]}


def want_dict(a, b):
    out = {}
    for k, x in a.items():
        y = b.get(k)
        if isinstance(x, list):
            out[k] = ("list", x, y)
        elif isinstance(x, datetime.datetime):
            out[k] = ("is", date(x, y))
        elif isinstance(x, str):
            out[k] = ("is", SAME if x == y else [x, y])
        elif isinstance(x, dict) and isinstance(y, dict):
            out[k] = ("dict", x, y)
        else:
            out[k] = ("is", num(x, y))
    for k, y in b.items():
        if k not in a:
            out[k] = ("is", [None, y])
    return out


def ok_dict(d, a, b):
    w = want_dict(a, b)
    if not w:
        return d == SAME
    if not isinstance(d, dict) or set(d) != set(w):
        return False
    for k, x in w.items():
        if x[0] == "is" and not eq(d[k], x[1]) or x[0] == "list" and not ok_list(d[k], *x[1:]) or x[0] == "dict" and not ok_dict(d[k], *x[1:]):
            return False
    return True


def ok_parts(d, a, b):
    """the law for dictionaries with different keys: [only a, shared, only b]"""
    if not a and not b:
        return d == SAME
    if not isinstance(d, list) or len(d) != 3:
        return False
    if not eq(d[0], {k: x for k, x in a.items() if k not in b}) or not eq(d[2], {k: x for k, x in b.items() if k not in a}):
        return False
    sh = {k for k in a if k in b}
    if set(d[1]) != sh:
        return False
    for k in sh:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            if not ok_parts(d[1][k], x, y):
                return False
        elif not ok_dict({0: d[1][k]}, {0: x}, {0: y}):
            return False
    return True


def chk_util(p):
    a, b = p["n"]
    got = U.find_diff_of_numbers(a, b)
    if not eq(got, num(a, b)):
        return f"find_diff_of_numbers({a}, {b}) = {got}"
    if (got == SAME) != (U.find_diff_of_numbers(b, a) == SAME):
        return f"difference of {a} and {b} depends on the direction"
    for x, y in ((a, b), (str(a), str(b)), (a == 0, b == 0)):
        if isnan(x) or isnan(y):
            continue
        if not eq(U.find_diff_of_strings_and_bools(x, y), SAME if x == y else [x, y]):
            return f"find_diff_of_strings_and_bools({x!r}, {y!r})"
    l = [None if i in p["none"] else x for i, x in enumerate(p["l"])]
    for mk in (list, set):
        x, y = (v if v is None else mk(v) for v in l)
        cx, cy = copy.deepcopy(x), copy.deepcopy(y)
        got = U.find_diff_of_lists_and_sets(x, y)
        if not ok_list(got, x, y):
            return f"find_diff_of_lists_and_sets({x}, {y}) = {got}"
        if (x, y) != (cx, cy):
            return f"find_diff_of_lists_and_sets changed its operands {cx}, {cy}"
    x, y = (None if v is None else live({"$date": v}) for v in p["dt"])
    got = U.find_diff_of_dates(x, y)
    if not eq(got, date(x, y)):
        return f"find_diff_of_dates({x}, {y}) = {got}"
    x, y = (live(v) for v in p["d"])
    cx, cy = copy.deepcopy(x), copy.deepcopy(y)
    got = U.find_diff_of_dicts(x, y)
    if not ok_dict(got, x, y):
        return f"find_diff_of_dicts({x}, {y}) = {got}"
    got = U.find_diff_of_dicts_with_diff_keys(x, y)
    if not ok_parts(got, x, y):
        return f"find_diff_of_dicts_with_diff_keys({x}, {y}) = {got}"
    if not eq(x, cx) or not eq(y, cy):
        return "a diff changed its operands"
    x, y = p["m"]
    for y in (p["m"][1], x):
        got = U.find_diff_of_matrices(x, y)
        w = np.array(x, float) - np.array(y, float)
        same = bool(((w == 0) | np.isnan(w)).all())
        if same != (isinstance(got, str) and got == SAME) or not same and not np.array_equal(got, w, equal_nan=True):
            return f"find_diff_of_matrices({x}, {y}) = {got}"
    return None


# ---------------------------------------------------------------------- columns
def vals(rng, k):
    n = rng.choice([0, 1, 2, 3, 5, 12, 40, 120])
    if k == "int":
        v = [str(int(x)) for x in numbers(rng, n, rng.choice(["int", "zero", "neg", "const", "two", "wide", "offset", "constzero"]))]
    elif k == "float":
        v = [as_row(rng, x) for x in numbers(rng, n)]
    elif k == "text":
        v = ["".join(rng.choice("abc xyz") for _ in range(rng.randint(1, 9))).strip() or "t" for _ in range(n)]
    elif k == "date":
        b = datetime.datetime(rng.choice([1999, 2010]), 1, 2)
        f = rng.choice(["%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%m/%d/%Y"])
        v = [(b + datetime.timedelta(hours=rng.randint(-2000, 2000))).strftime(f) for _ in range(n)]
    else:
        m = rng.choice([1, 2, 4, 9])
        v = [f"c{rng.randint(0, m)}" for _ in range(n)]
    if rng.random() < .15:
        v += [rng.choice(["zz", "1", "2.5", "x"]) for _ in range(2)]
    return v


KINDS = {"int": [IntColumn, OrderColumn, CategoricalColumn, FloatColumn], "float": [FloatColumn, CategoricalColumn], "text": [TextColumn, CategoricalColumn, OrderColumn],
         "date": [DateTimeColumn, OrderColumn], "cat": [CategoricalColumn, CategoricalColumn, OrderColumn, TextColumn]}


def gen_col(rng, i):
    k = rng.choice(sorted(KINDS))
    a = vals(rng, k)
    b = rng.choice([a, vals(rng, k), vals(rng, k), a * 2, a[: len(a) // 2]])
    return {"c": rng.choice(KINDS[k]).__name__, "a": a, "b": b, "bias": rng.random() < .8}


def ttest(d, m1, v1, n1, m2, v2, n2):
    e = {"t-statistic": None, "conservative": {"deg_of_free": None, "p-value": None}, "welch": {"deg_of_free": None, "p-value": None}}
    if n1 > 1 and n2 > 1 and not any(map(isnan, (m1, v1, m2, v2))) and (v1 or v2):
        s = v1 / n1 + v2 / n2
        t = (m1 - m2) / math.sqrt(s)
        w = s ** 2 / ((v1 / n1) ** 2 / (n1 - 1) + (v2 / n2) ** 2 / (n2 - 1))
        e = {"t-statistic": t}
        for k, f in (("conservative", min(n1, n2) - 1), ("welch", w)):
            e[k] = {"deg_of_free": f, "p-value": 2 * scipy.stats.t.sf(abs(t), f)}
    return None if eq(d, e, 1e-7) else f"t-test of (mean {m1}, variance {v1}, n {n1}) and ({m2}, {v2}, {n2}): {d}, is {e}"


def psi_of(fa, fb):
    return float(sum((y - x) * math.log(y / x) for x, y in zip(fa, fb) if x and y))


def numeric_psi(a, b):
    ha, hb = (c._stored_histogram["histogram"] for c in (a, b))
    if any(not isinstance(h[k], np.ndarray) for h in (ha, hb) for k in ("bin_counts", "bin_edges")):
        return None
    lo, hi = min(ha["bin_edges"][0], hb["bin_edges"][0]), max(ha["bin_edges"][-1], hb["bin_edges"][-1])
    if lo == hi:
        return 0.0
    f = []
    for c, h in ((a, ha), (b, hb)):
        r, _ = a._regenerate_histogram(entity_count_per_bin=h["bin_counts"], bin_edges=h["bin_edges"], suggested_bin_count=10,
                                       is_float_histogram=isinstance(a, FloatColumn), options={"min_edge": lo, "max_edge": hi})
        f.append([x / c.match_count for x in r["bin_counts"]])
    return psi_of(*f)


def chi2(d, c1, n1, c2, n2):
    e = {"chi2-statistic": None, "deg_of_free": None, "p-value": None}
    ks = sorted(set(c1) | set(c2))
    if len(ks) > 1:
        if not n1 or not n2:
            e = {"chi2-statistic": math.inf, "deg_of_free": len(ks) - 1, "p-value": 0}
        else:
            s = 0.0
            for k in ks:
                x, y = c1.get(k, 0), c2.get(k, 0)
                e1, e2 = (n * (x + y) / (n1 + n2) for n in (n1, n2))
                s += (x - e1) ** 2 / e1 + (y - e2) ** 2 / e2
            e = {"chi2-statistic": s, "deg_of_free": len(ks) - 1, "p-value": scipy.stats.chi2.sf(s, len(ks) - 1)}
    return None if eq(d, e, 1e-7) else f"chi2 of {c1}, {c2}: {d}, is {e}"


def diff_of(a, b):
    with quiet():
        return a.diff(b)


def nums_ok(d, a, b, keys):
    for k, f in keys.items():
        x, y = f(a), f(b)
        if not eq(d[k], num(x, y)):
            return f"{k}: diff {d[k]}, statistics {x} and {y}"
    return None


def cat_ok(c, a, b):
    if not eq(c["categorical"], SAME if a.is_match == b.is_match else [a.is_match, b.is_match]):
        return f"categorical: {c['categorical']}"
    s = c["statistics"]
    r = nums_ok(s, a, b, {"unique_count": lambda x: x.unique_count, "unique_ratio": lambda x: x.unique_ratio})
    if r or not (a.is_match and b.is_match):
        return r if r or set(s) == {"unique_count", "unique_ratio"} else f"statistics of a column that is not categorical: {sorted(s)}"
    r = nums_ok(s, a, b, {"gini_impurity": lambda x: x.gini_impurity, "unalikeability": lambda x: x.unalikeability})
    if r:
        return r
    ca, cb = dict(a._categories), dict(b._categories)
    if not ok_list(s["categories"], a.categories, b.categories):
        return f"categories: {s['categories']} of {a.categories}, {b.categories}"
    r = chi2(s["chi2-test"], ca, a.sample_size, cb, b.sample_size)
    if r:
        return r
    ks = set(ca) | set(cb)
    e = {k: num(ca.get(k, 0), cb.get(k, 0)) for k in ks} or SAME
    if not eq(s["categorical_count"], e):
        return f"categorical_count {s['categorical_count']} of {ca}, {cb}"
    if ks:
        w = psi_of([ca.get(k, 0) / a.sample_size if a.sample_size else 0 for k in ks], [cb.get(k, 0) / b.sample_size if b.sample_size else 0 for k in ks])
        if not eq(s["psi"], w, 1e-7):
            return f"psi {s['psi']} of {ca}, {cb}: is {w}"
    return None


def num_ok(d, a, b):
    r = nums_ok(d, a, b, {"min": lambda x: x.min, "max": lambda x: x.max, "sum": lambda x: x.sum, "mean": lambda x: x.mean, "median": lambda x: x.median,
                          "variance": lambda x: x.variance, "stddev": lambda x: x.stddev, "median_absolute_deviation": lambda x: x.median_abs_deviation})
    if r:
        return r
    if not ok_list(d["mode"], a.mode, b.mode) and not all(len(m) == 1 and isnan(m[0]) for m in (a.mode, b.mode)):
        return f"mode: {d['mode']} of {a.mode}, {b.mode}"
    return ttest(d["t-test"], a.mean, a.variance, a.match_count, b.mean, b.variance, b.match_count)


def col_ok(d, a, b):
    if isinstance(a, CategoricalColumn):
        return cat_ok(d, a, b)
    if isinstance(a, OrderColumn):
        return None if eq(d, {"order": SAME if a.order == b.order else [a.order, b.order]}) else f"order {d} of {a.order}, {b.order}"
    if isinstance(a, DateTimeColumn):
        if not eq(d["min"], date(a._dt_obj_min, b._dt_obj_min)) or not eq(d["max"], date(a._dt_obj_max, b._dt_obj_max)) or not ok_list(d["format"], a.date_formats, b.date_formats):
            return f"dates {d} of {a.profile}, {b.profile}"
        return None
    r = num_ok(d, a, b)
    if r:
        return r
    if isinstance(a, TextColumn):
        return None if "psi" not in d and ok_list(d["vocab"], a.vocab, b.vocab) else f"vocab {d['vocab']}"
    w = numeric_psi(a, b)
    if (d["psi"] is None) != (w is None) or w is not None and not close(d["psi"], w, 1e-9, 1e-12):
        return f"psi {d['psi']}, is {w}"
    if isinstance(a, FloatColumn):
        x, y = a.profile["precision"], b.profile["precision"]
        e = {k: num(x[k], y[k]) for k in x if k != "confidence_level"}
        if not eq(d["precision"], e):
            return f"precision {d['precision']} of {x}, {y}"
    return None


def chk_col(p):
    import dataprofiler.profilers as P
    cls = getattr(P, p["c"])

    def mk(v):
        c = cls("c")
        if hasattr(c, "bias_correction"):
            c.bias_correction = p["bias"]
        with quiet():
            if v:
                c.update(pd.Series(v, dtype=object))
        return c
    a, b = mk(p["a"]), mk(p["b"])
    with quiet():
        before = repr((a.profile, b.profile))
    try:
        d, r, s = diff_of(a, b), diff_of(b, a), diff_of(a, a)
    except Exception as e:
        return f"{cls.__name__}: diff raised {type(e).__name__}: {e}"
    for x, y, z in ((d, a, b), (r, b, a), (s, a, a)):
        m = col_ok(x, y, z)
        if m:
            return f"{cls.__name__}: {m}"
    with quiet():
        if repr((a.profile, b.profile)) != before:
            return f"{cls.__name__}: diff changed its operands"
    # a column does not differ from itself, nor from another one of the same data
    q = quietly_same(s) or p["a"] == p["b"] and quietly_same(d)
    if q:
        return f"{cls.__name__}: same data, but {q}"
    for k in ("psi",):
        for x in (d, r, d.get("statistics", {}), r.get("statistics", {})):
            if x.get(k) is not None and x[k] < -1e-12:
                return f"{cls.__name__}: negative psi {x[k]}"
    x, y = (z.get("psi", z.get("statistics", {}).get("psi")) for z in (d, r))
    if x is not None and not close(x, y, 1e-6, 1e-9):
        return f"{cls.__name__}: psi depends on the direction: {x}, {y}"
    return None


def quietly_same(d, path=""):
    """message if a diff of equal data reports a difference"""
    for k, v in d.items():
        at = f"{path}/{k}"
        if k == "t-test":
            if v["t-statistic"] not in (None, 0):
                return f"{at}: {v}"
        elif k == "chi2-test":
            if v["chi2-statistic"] not in (None, math.inf) and abs(v["chi2-statistic"]) > 1e-9:
                return f"{at}: {v}"
        elif k == "psi":
            if v is not None and abs(v) > 1e-12:
                return f"{at}: {v}"
        elif isinstance(v, dict):
            r = quietly_same(v, at)
            if r:
                return r
        elif v != SAME:
            return f"{at}: {v}"
    return None


# ---------------------------------------------------------------------- profiles
def gen_prof(rng, i):
    ks = [rng.choice(sorted(KINDS)) for _ in range(rng.choice([1, 2, 3]))]
    n1, n2 = rng.choice([1, 3, 10, 30]), rng.choice([1, 3, 10, 30])

    def fr(n):
        out = []
        for k in ks:
            v = []
            while len(v) < n:
                v += vals(rng, k) + ([None, "nan"] if rng.random() < .3 else [])
            out.append(v[:n])
        return out
    a = fr(n1)
    b = rng.choice([a, fr(n2), fr(n2)])
    names = [f"k{j}" for j in range(len(ks))]
    if len(ks) > 1 and rng.random() < .15:
        names[1] = names[0]
    other = list(names)
    r = rng.random()
    if r < .15:
        other[-1] = "else"
    elif r < .25:
        other = other[::-1]
    elif r < .35 and len(ks) > 1:
        other = other[:-1]
        b = b[:-1]
    return {"a": a, "b": b, "na": names, "nb": other}


def chk_prof(p):
    o = {"correlation.is_enabled": True} if p["na"] == p["nb"] and len(set(p["na"])) == len(p["na"]) else {}
    ps = []
    for c, n in ((p["a"], p["na"]), (p["b"], p["nb"])):
        df = pd.DataFrame({j: pd.Series(v, dtype=object) for j, v in enumerate(c)})
        df.columns = n
        ps.append(profile(df, prof_options(**o)))
    a, b = ps
    with quiet():
        before = repr((a.report(), b.report()))
    try:
        d, s = diff_of(a, b), diff_of(a, a)
    except Exception as e:
        return f"diff raised {type(e).__name__}: {e}"
    with quiet():
        if repr((a.report(), b.report())) != before:
            return "diff changed its operands"
        ga, gb = a.report()["global_stats"], b.report()["global_stats"]
    for dd, x, y, gx, gy in ((d, a, b, ga, gb), (s, a, a, ga, ga)):
        g = dd["global_stats"]
        for k in ("samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio", "duplicate_row_count"):
            if not eq(g[k], num(gx[k], gy[k])):
                return f"{k}: diff {g[k]}, reported {gx[k]} and {gy[k]}"
        for k in ("file_type", "encoding"):
            if not eq(g[k], SAME if gx[k] == gy[k] else [gx[k], gy[k]]):
                return f"{k}: diff {g[k]}, reported {gx[k]} and {gy[k]}"
        sx, sy = ({k: list(v) for k, v in z["profile_schema"].items()} for z in (gx, gy))
        if not ok_parts(g["profile_schema"], sx, sy):
            return f"profile_schema {g['profile_schema']} of {sx}, {sy}"
        for k in ("correlation_matrix", "chi2_matrix"):
            m = getattr(x, k), getattr(y, k)
            if m[0] is None or m[1] is None or np.shape(m[0]) != np.shape(m[1]):
                if g[k] is not None:
                    return f"{k}: {g[k]}"
                continue
            w = np.array(m[0], float) - np.array(m[1], float)
            same = bool(((w == 0) | np.isnan(w)).all())
            if same != isinstance(g[k], str) or not same and not np.allclose(g[k], w, equal_nan=True):
                return f"{k}: {g[k]} of {m}"
        if sx != sy:
            if dd["data_stats"]:
                return "columns of different schemas compared"
            continue
        if len(dd["data_stats"]) != len(x._profile):
            return f"{len(dd['data_stats'])} columns compared of {len(x._profile)}"
        for j, e in enumerate(dd["data_stats"]):
            r = coldiff(e, x._profile[j], y._profile[j])
            if r:
                return f"column {j}: {r}"
    r = quietly_same({k: v for k, v in s["global_stats"].items() if k not in ("profile_schema", "correlation_matrix", "chi2_matrix")})
    return f"profile against itself: {r}" if r else None


def coldiff(e, x, y):
    if e["column_name"] != x.name:
        return f"column_name {e['column_name']}"
    st = e["statistics"]
    for k in ("sample_size", "null_count", "null_ratio"):
        if not eq(st[k], num(getattr(x, k), getattr(y, k))):
            return f"{k}: {st[k]} of {getattr(x, k)}, {getattr(y, k)}"
    if not ok_list(st["null_types"], x.null_types, y.null_types):
        return f"null_types: {st['null_types']} of {x.null_types}, {y.null_types}"
    i, j = x.null_types_index, y.null_types_index
    ni = st["null_types_index"]
    if not i and not j:
        if ni != SAME:
            return f"null_types_index {ni}"
    elif ni[0] != {k: v for k, v in i.items() if k not in j} or ni[2] != {k: v for k, v in j.items() if k not in i} or set(ni[1]) != set(i) & set(j):
        return f"null_types_index: {ni} of {i}, {j}"
    else:
        for k, v in ni[1].items():
            if (v == SAME) != (i[k] == j[k]):
                return f"null_types_index: {v} of {i[k]}, {j[k]}"
    px, py = x.profiles["data_type_profile"], y.profiles["data_type_profile"]
    t, u = px.selected_data_type, py.selected_data_type
    if t is not None or u is not None:
        if not eq(e["data_type"], SAME if t == u else [t, u]):
            return f"data_type {e['data_type']} of {t}, {u}"
        rep = st["data_type_representation"]
        for k in set(px._profiles) | set(py._profiles):
            v = [z._profiles[k].data_type_ratio if k in z._profiles else None for z in (px, py)]
            if not eq(rep[k], num(*v)):
                return f"data_type_representation {k}: {rep[k]} of {v}"
    sx, sy = x.profiles["data_stats_profile"]._profiles, y.profiles["data_stats_profile"]._profiles
    if "order" in sx and "order" in sy:
        r = col_ok({"order": e["order"]}, sx["order"], sy["order"])
        if r:
            return r
    both = "category" in sx and "category" in sy
    cm = both and sx["category"].is_match and sy["category"].is_match and (sx["category"]._categories or sy["category"]._categories)
    if t is not None and t == u:
        a, b = px._profiles[t], py._profiles[t]
        w = dict(st)
        if cm and "psi" in w:                     # replaced by that of the categories
            w["psi"] = numeric_psi(a, b) if not isinstance(a, (TextColumn, DateTimeColumn)) else None
        if isinstance(a, TextColumn):
            w.pop("psi", None)
        r = col_ok(w, a, b)
        if r:
            return f"{t}: {r}"
    if both and sx["category"].sample_size and sy["category"].sample_size:
        c = {"categorical": e["categorical"], "statistics": st if cm or sx["category"].is_match and sy["category"].is_match else {k: st[k] for k in ("unique_count", "unique_ratio")}}
        r = cat_ok(c, sx["category"], sy["category"])
        if r:
            return f"category: {r}"
    return None


# ---------------------------------------------------------------------- text profiles
def gen_un(rng, i):
    ws = ["the", "cat", "Cat", "sat", "on", "mat", "dog", "DOG", "x1", "hello", "b"]
    a = [" ".join(rng.choice(ws) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 6))]
    b = rng.choice([a, [" ".join(rng.choice(ws) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 6))]])
    return {"a": a, "b": b, "case": [rng.random() < .7, rng.random() < .7], "top": rng.choice([None, None, 2])}


def chk_un(p):
    def mk(v, case):
        o = prof_options(**{"unstructured_options.text.is_case_sensitive": case, "unstructured_options.text.top_k_words": p["top"], "unstructured_options.text.top_k_chars": p["top"]})
        with quiet():
            return dp.Profiler(pd.Series(v, dtype=object), profiler_type="unstructured", options=o)
    a, b = mk(p["a"], p["case"][0]), mk(p["b"], p["case"][1])
    try:
        d, s = diff_of(a, b), diff_of(a, a)
    except Exception as e:
        return f"text profile: diff raised {type(e).__name__}: {e}"
    for dd, x, y, cx, cy in ((d, a, b, *p["case"]), (s, a, a, p["case"][0], p["case"][0])):
        g = dd["global_stats"]
        for k, v in {"samples_used": (x.total_samples, y.total_samples), "empty_line_count": (x._empty_line_count, y._empty_line_count), "memory_size": (x.memory_size, y.memory_size)}.items():
            if not eq(g[k], num(*v)):
                return f"{k}: {g[k]} of {v}"
        if "statistics" not in dd["data_stats"]:
            continue
        t, u = x._profile._profiles["text"], y._profile._profiles["text"]
        st = dd["data_stats"]["statistics"]
        if not ok_list(st["vocab"], list(t.vocab_count), list(u.vocab_count)):
            return f"vocab {st['vocab']}"
        wx, wy = list(t.word_count), list(u.word_count)
        if cx and not cy:
            wx = [w.lower() for w in wx]
        if cy and not cx:
            wy = [w.lower() for w in wy]
        if not ok_list(st["words"], wx, wy):
            return f"words {st['words']} of {wx}, {wy}"
        if p["top"] is None:
            if not ok_parts(st["vocab_count"], dict(t.vocab_count), dict(u.vocab_count)):
                return f"vocab_count {st['vocab_count']}"
            if cx == cy and not ok_parts(st["word_count"], dict(t.word_count), dict(u.word_count)):
                return f"word_count {st['word_count']}"
    return None


CHECKS = {"difference helpers": (gen_util, chk_util), "differences of columns": (gen_col, chk_col), "differences of profiles": (gen_prof, chk_prof),
          "differences of text profiles": (gen_un, chk_un)}

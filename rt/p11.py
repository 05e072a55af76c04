"""Runtime contracts of P11: columns are matched by name, never by position."""
from .lib import *
from .p08 import KINDS, vals
from .p09 import freeze, untouched
from .p10 import plain, unlike

NAMES = [["a", "b", "c", "d"], ["Name", "name x", "AGE", "z"], [3, 1, 2, 0], ["1", "2", "10", "x"], ["a", 0, "b", 1], ["", " ", "a b", "Ä"]]


def frames(rng, ks, k):
    out = []
    for _ in range(k):
        n = rng.choice([1, 2, 4, 9, 25])
        f = []
        for kd in ks:
            v = []
            while len(v) < n:
                v += vals(rng, kd) + ([None, "nan", ""] if rng.random() < .3 else [])
            f.append(v[:n])
        out.append(f)
    return out


def options(p):
    st = {"correlation.is_enabled": p["corr"], "null_replication_metrics.is_enabled": p["null"]}
    if p["hll"]:
        st["row_statistics.unique_count.hashing_method"] = "hll"
    if p.get("nulls"):
        o = prof_options(**st)
        o.structured_options.column_null_values = {int(k): {v: 0} for k, v in p["nulls"].items()}
        return o
    return prof_options(**st)


def df(names, cols, order=None, case=None):
    order = list(range(len(cols))) if order is None else order
    d = pd.concat([pd.Series(cols[i], dtype=object) for i in order], axis=1) if order else pd.DataFrame()
    d.columns = [case(names[i]) if case and isinstance(names[i], str) else names[i] for i in order]
    return d


CASE = {"upper": str.upper, "lower": str.lower, "none": None}


def gen_up(rng, i):
    k = rng.choice([1, 2, 3, 3, 4])
    ks = [rng.choice(sorted(KINDS)) for _ in range(k)]
    ns = rng.choice(NAMES)[:k]
    od = [rng.sample(range(k), k) for _ in range(3)]
    return {"n": ns, "f": frames(rng, ks, 3), "o": od, "corr": rng.random() < .4, "null": rng.random() < .4, "hll": rng.random() < .2, "case": rng.choice(sorted(CASE)) if len({str(x).lower() for x in ns}) == k else "none",
            "nulls": {str(rng.randrange(k)): rng.choice(["0", "1", "a", "c1"])} if rng.random() < .25 else None}


def state(p):
    with quiet():
        r = plain(p.report({"num_quantile_groups": 4}))
    r["global_stats"].pop("file_type")
    return r


def chk_up(p):
    c = CASE[p["case"]]
    if p["case"] == "upper" and any("ß" in str(n) for n in p["n"]):
        return None
    a = profile(df(p["n"], p["f"][0]), options(p))
    b = profile(df(p["n"], p["f"][0]), options(p))
    for k in (1, 2):
        update(a, df(p["n"], p["f"][k], p["o"][k], c))
        update(b, df(p["n"], p["f"][k]))
        r = unlike(state(b), state(a))
        if r:
            return f"updating with columns in another order (or case) gives otherwise: {r}"
    return None


def gen_merge(rng, i):
    if i == 0:      # known finding: the fixed case
        return {"n": ["a", "b"], "f": [[["1", "2"], ["x", "y"]], [["1", "2"], ["x", "y"]]], "o": [[0, 1], [1, 0]], "corr": False, "null": False, "hll": False, "known": True}
    k = rng.choice([1, 2, 3, 3, 4])
    ks = [rng.choice(sorted(KINDS)) for _ in range(k)]
    return {"n": rng.choice(NAMES)[:k], "f": frames(rng, ks, 2), "o": [rng.sample(range(k), k) for _ in range(2)], "corr": rng.random() < .4, "null": rng.random() < .4, "hll": rng.random() < .2}


def chk_merge(p):
    a = profile(df(p["n"], p["f"][0]), options(p))
    b = profile(df(p["n"], p["f"][1]), options(p))
    c = profile(df(p["n"], p["f"][1], p["o"][1]), options(p))
    x, y = state(merge(a, b)), state(merge(a, c))
    if p.get("known"):
        if x["global_stats"]["unique_row_ratio"] != y["global_stats"]["unique_row_ratio"]:
            return "rows of the second profile, its columns reordered, are counted as new rows"
        return None
    if p["o"][1] != sorted(p["o"][1]):
        for s in (x, y):        # known finding: row hashes depend on the order of columns
            s["global_stats"].pop("unique_row_ratio"), s["global_stats"].pop("duplicate_row_count")
    r = unlike(x, y)
    if r:
        return f"merging with a profile whose columns are in another order gives otherwise: {r}"
    # whose columns come first decides the order, not which statistics belong to which name
    z = state(merge(c, a))
    got = {d["column_name"]: d["samples"] if "samples" in d else d["statistics"].get("unique_count") for d in z["data_stats"]}
    ref = {d["column_name"]: d["samples"] if "samples" in d else d["statistics"].get("unique_count") for d in x["data_stats"]}
    r = unlike(dict(sorted(ref.items(), key=str)), dict(sorted(got.items(), key=str)))
    return f"merging the other way round mixes columns: {r}" if r else None


def gen_bad(rng, i):
    k = rng.choice([1, 2, 3])
    ks = [rng.choice(sorted(KINDS)) for _ in range(k + 1)]
    return {"f": frames(rng, ks, 2), "how": rng.choice(["renamed", "missing", "extra", "duplicate", "duplicate moved", "twice"]), "merge": rng.random() < .5, "corr": False, "null": False, "hll": False}


def chk_bad(p):
    k = len(p["f"][0]) - 1
    n = [f"c{j}" for j in range(k)]
    x, y = p["f"][0], p["f"][1]
    n1, d1, n2, d2 = n, x[:k], list(n), y[:k]
    if p["how"] == "renamed":
        n2[-1] = "other"
    elif p["how"] == "missing":
        n1, d1 = n + ["more"], x
    elif p["how"] == "extra":
        n2, d2 = n + ["more"], y
    elif p["how"] == "duplicate":
        n2, d2 = n + [n[0]], y
    elif p["how"] == "twice":
        if k < 2:
            return None
        n2 = [n[0]] * k
    else:       # duplicated names must keep their positions
        n1, d1 = [n[0]] + n, [x[-1]] + x[:k]
        n2, d2 = n + [n[0]], y[:k] + [y[-1]]
        if n1 == n2:
            return None
    a = profile(df(n1, d1), options(p))
    before, st = freeze(a), state(a)
    other = df(n2, d2)
    o = profile(other, options(p)) if p["merge"] else None
    try:
        merge(a, o) if p["merge"] else update(a, other)
    except ValueError:
        r = untouched("refused " + ("merge" if p["merge"] else "update"), a, before)
        if not r:
            r = unlike(st, state(a))
        return r
    return f"{p['how']} columns are accepted: {n1} and {n2}"


def gen_dup(rng, i):
    """duplicate names at the same positions: each position keeps its own statistics; whole columns at once or batch by batch"""
    k = rng.choice([2, 3, 4])
    ks = [rng.choice(sorted(KINDS)) for _ in range(k)]
    ns = [rng.choice(["x", "y"]) for _ in range(k)]
    return {"n": ns, "f": frames(rng, ks, 2), "merge": rng.random() < .5, "corr": False, "null": rng.random() < .3, "hll": rng.random() < .2}


def chk_dup(p):
    u = [f"u{j}" for j in range(len(p["n"]))]
    out = []
    for n in (p["n"], u):
        a = profile(df(n, p["f"][0]), options(p))
        if p["merge"]:
            a = merge(a, profile(df(n, p["f"][1]), options(p)))
        else:
            update(a, df(n, p["f"][1]))
        s = state(a)
        if p["hll"]:
            s["global_stats"].pop("unique_row_ratio"), s["global_stats"].pop("duplicate_row_count")
        sch = s["global_stats"].pop("profile_schema")
        names = [d.pop("column_name") for d in s["data_stats"]]
        if names != n or sch != {str(m): [float(i) for i, w in enumerate(n) if w == m] for m in dict.fromkeys(n)}:
            return f"names {names}, schema {sch} of columns {n}"
        out.append(s)
    r = unlike(out[1], out[0])
    return f"columns of the same name are mixed: {r}" if r else None


CHECKS = {"updating reordered": (gen_up, chk_up), "merging reordered": (gen_merge, chk_merge), "refusing other columns": (gen_bad, chk_bad), "duplicate names": (gen_dup, chk_dup)}

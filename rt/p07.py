"""Runtime contracts of P07: null accounting and row statistics."""
import re

from .lib import *

TOK = ["", "nan", "NaN", "None", "NONE", "null", "Null", " ", "   ", "-", "---", "_", "__"]
NOTNULL = ["1", "2", "abc", "n/a", "nana", "- -", "0", "false", "x y", "12.5", "-1", "_a", "nullable"]


def default_null(s):
    return bool(re.match(r"^(?:|nan|none|null| +|-+|_+)$", s, re.IGNORECASE)) and "\n" not in s


def cell(rng, dens):
    if rng.random() < dens:
        return rng.choice(TOK + [None, float("nan")] * 2)
    return rng.choice(NOTNULL)


def gen(rng, i):
    m = rng.choice([1, 1, 2, 3, 4])
    n = rng.choice([1, 2, 3, 5, 8, 15, 30])
    dens = [rng.choice([0, .1, .5, .9, 1]) for _ in range(m)]
    if rng.random() < .3:
        dens = [rng.choice([.6, .8])] * m
    rws = [[cell(rng, d) for d in dens] for _ in range(n)]
    if rng.random() < .4:
        rws = [rng.choice(rws) for _ in rws]
    parts = split(rng, rws, rng.choice([1, 2, 3, 4]))
    parts = [p for p in parts if p] or [rws]
    return {"m": m, "parts": parts, "ops": [rng.choice("uum") for _ in parts], "ix": rng.choice(["range", "range", "next", "off", "rev", "dup", "neg"]),
            "off": rng.choice([0, 3, 100]), "mts": rng.choice([0, 0, 0, 1, 2, 5, 50]), "spu": rng.choice([None, None, None, 1, 2, 4]),
            "nulls": rng.choice(["default"] * 4 + ["custom", "column", "none"]), "grp": rng.random() < .3}


def index(p, k, n, at):
    o = p["off"]
    if p["ix"] == "range":
        return range(o, o + n)
    if p["ix"] == "next":
        return range(at, at + n)
    if p["ix"] == "off":
        return range(o * (k + 1), o * (k + 1) + 2 * n, 2)
    if p["ix"] == "rev":
        return range(o, o + n)[::-1]
    if p["ix"] == "neg":
        return range(-o, n - o)
    return [o + j // 2 for j in range(n)]


def chk(p):
    m = p["m"]
    opt = {"correlation.is_enabled": False, "chi2_homogeneity.is_enabled": False, "category.is_enabled": False, "*.vocab.is_enabled": False}
    isnull = [default_null] * m
    if p["nulls"] == "custom":
        opt["structured_options.null_values"] = {"abc": 0, "1": 0, "nan": re.IGNORECASE}
        isnull = [lambda s: bool(re.match(r"^(?:abc|1|nan)$", s, re.IGNORECASE))] * m
    if p["nulls"] == "column":
        opt["structured_options.column_null_values"] = {0: {"x y": 0}}
        isnull = [lambda s: default_null(s) or s.lower() == "x y"] + isnull[1:]
    if p["nulls"] == "none":
        opt["structured_options.null_values"] = {"zzz": 0}
        isnull = [lambda s: s.lower() == "zzz"] * m
    o = prof_options(**opt)
    if p["nulls"] == "column" and p["mts"]:
        pass
    names = [f"c{j}" for j in range(m)]
    kw = {}
    if p["mts"]:
        kw["min_true_samples"] = p["mts"]
    if p["spu"]:
        kw["samples_per_update"] = p["spu"]

    def fr(k, at):
        rws = p["parts"][k]
        d = pd.DataFrame({c: pd.Series([r[j] for r in rws], dtype=object) for j, c in enumerate(names)})
        d.index = index(p, k, len(rws), at)
        return d
    sampled = not p["spu"]
    pr, at = None, 0
    for k in range(len(p["parts"])):
        d = fr(k, at)
        at += len(d)
        if pr is None:
            pr = profile(d, o, **kw)
        elif p["ops"][k] == "u":
            update(pr, d)
        else:
            pr = merge(pr, profile(d, o, **kw))
    allrows = [r for b in p["parts"] for r in b]
    N = len(allrows)
    rep = pr.report()
    g = rep["global_stats"]
    if g["row_count"] != N or g["column_count"] != m or pr.total_samples != N:
        return f"row_count {g['row_count']}, column_count {g['column_count']} of {N} x {m}"
    sizes = []
    for j in range(m):
        c = pr._profile[j]
        s = rep["data_stats"][j]["statistics"]
        vals = [str(r[j]) for r in allrows]
        flags = [isnull[j](v) for v in vals]
        sizes.append(c.sample_size)
        if s["sample_size"] != c.sample_size or s["null_count"] != c.null_count:
            return "report differs from the profile"
        tot = sum(len(x) for x in c.null_types_index.values())
        if tot != c.null_count:
            return f"column {j}: {c.null_count} nulls, {tot} null row identities {c.null_types_index}"
        if len(set().union(*c.null_types_index.values())) != tot:
            return f"column {j}: one row identity under two null types {c.null_types_index}"
        if set(c.null_types) != set(c.null_types_index) or set(s["null_types"]) != set(c.null_types_index):
            return f"column {j}: null types {c.null_types}, index has {list(c.null_types_index)}"
        for t in c.null_types:
            if not isnull[j](t):
                return f"column {j}: {t!r} is no null"
        dt = [x for x in c.profiles["data_type_profile"]._profiles.values()]
        for x in dt:
            if x.sample_size != c.sample_size - c.null_count:
                return f"column {j}: {type(x).__name__} saw {x.sample_size} values of {c.sample_size} rows with {c.null_count} nulls"
        if not close(c.null_ratio, c.null_count / c.sample_size):
            return f"column {j}: null_ratio {c.null_ratio}, {c.null_count} of {c.sample_size}"
        if sampled:
            if c.sample_size != N or c.null_count != sum(flags):
                return f"column {j}: {c.null_count} nulls of {c.sample_size}, are {sum(flags)} of {N}"
            want = {}
            for v, f in zip(vals, flags):
                if f:
                    want[v] = want.get(v, 0) + 1
            if {t: len(x) for t, x in c.null_types_index.items()} != want:
                return f"column {j}: nulls per type { {t: len(x) for t, x in c.null_types_index.items()} }, are {want}"
            if len(p["parts"]) == 1 and p["ix"] != "dup":
                ix = list(index(p, 0, N, 0))
                w = {}
                for a, v, f in zip(ix, vals, flags):
                    if f:
                        w.setdefault(v, set()).add(a)
                if c.null_types_index != w:
                    return f"column {j}: null rows {c.null_types_index}, are {w}"
        elif c.sample_size > N or c.null_count > c.sample_size:
            return f"column {j}: {c.null_count} nulls of {c.sample_size} of {N}"
    if g["samples_used"] != max(sizes):
        return f"samples used {g['samples_used']}, columns used {sizes}"
    rowflags = [[isnull[j](str(r[j])) for j in range(m)] for r in allrows]
    if sampled:
        has, al = sum(map(any, rowflags)), sum(map(all, rowflags))
        if not close(g["row_has_null_ratio"], has / N, 1e-9) or not close(g["row_is_null_ratio"], al / N, 1e-9):
            return f"rows with / of nulls: {g['row_has_null_ratio'] * N}, {g['row_is_null_ratio'] * N} of {N}, are {has}, {al}"
    elif not (0 <= g["row_is_null_ratio"] <= g["row_has_null_ratio"] <= 1 + 1e-12):
        return f"row null ratios {g['row_is_null_ratio']}, {g['row_has_null_ratio']}"
    keys = set(tuple(None if x is None or x != x else x for x in r) for r in allrows)
    if not close(g["unique_row_ratio"], len(keys) / N, 1e-9):
        return f"unique_row_ratio {g['unique_row_ratio']}, {len(keys)} of {N}"
    if g["duplicate_row_count"] != N - len(keys):
        return f"duplicate_row_count {g['duplicate_row_count']}, {len(keys)} distinct of {N}"
    return None


def gen_hll(rng, i):
    n = rng.choice([1, 5, 40, 2047, 2048, 2049, 4100]) if rng.random() < .3 else rng.choice([1, 5, 40])
    k = max(1, int(n * rng.choice([.1, .5, 1, 1])))
    return {"v": n, "k": k, "cut": rng.randint(0, n), "how": rng.choice("1um"), "r": rng.randint(0, 10 ** 6)}


def chk_hll(p):
    import random
    rng = random.Random(p["r"])
    v = [[str(rng.randrange(p["k"])), "x"] for _ in range(p["v"])]
    o = prof_options(**{"correlation.is_enabled": False, "row_statistics.unique_count.hashing_method": "hll", "data_labeler.is_enabled": False,
                        "chi2_homogeneity.is_enabled": False, "category.is_enabled": False, "*.vocab.is_enabled": False})
    df = pd.DataFrame(v, columns=["a", "b"], dtype=object)
    c = p["cut"]
    if p["how"] == "1" or c in (0, len(v)):
        pr = profile(df, o)
    elif p["how"] == "u":
        pr = profile(df[:c], o)
        update(pr, df[c:])
    else:
        pr = merge(profile(df[:c], o), profile(df[c:], o))
    u = len({x[0] for x in v})
    got = pr.report()["global_stats"]["unique_row_ratio"] * len(v)
    if abs(got - u) > 3 + .05 * u:
        return f"about {got} distinct rows, are {u}"
    d = pr.report()["global_stats"]["duplicate_row_count"]
    if abs(d - (len(v) - u)) > 3 + .05 * u:
        return f"duplicate_row_count {d}, are {len(v) - u}"
    return None


CHECKS = {"nulls and rows": (gen, chk), "row hashing by sketch": (gen_hll, chk_hll)}

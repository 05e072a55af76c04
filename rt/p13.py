"""Runtime contracts of P13: statistics of pairs of columns (correlation, chi2 matrix, null replication metrics)."""
from .lib import *
from . import p11
import scipy.stats

TEXTS = ["ab", "cd", "xyz", "hello world", "q", "Zed"]


def numeric(rng, n, kind):
    if kind == "int":
        return [str(rng.randint(-9, 30)) for _ in range(n)]
    if kind == "float":
        return [repr(round(rng.uniform(-9, 30), 2) + .001) for _ in range(n)]
    return [rng.choice(TEXTS) for _ in range(n)]


def varied(v):
    return len(set(map(float, v))) > 1


def options(p):
    st = {"correlation.is_enabled": p.get("corr", False), "null_replication_metrics.is_enabled": p.get("null", False), "chi2_homogeneity.is_enabled": p.get("chi", False),
          "*.bias_correction.is_enabled": p.get("bias", True)}
    if p.get("cols"):
        st["correlation.columns"] = p["cols"]
    return prof_options(**st)


def df(names, cols, order, index=None):
    d = p11.df(names, cols, order)
    if index is not None:
        d.index = index
    return d


def by_name(c, key):
    """a reported matrix with its rows and columns in the order c0, c1, ..."""
    r = c.report()
    m = r["global_stats"][key]
    if m is None:
        return None
    at = sorted(range(len(r["data_stats"])), key=lambda j: r["data_stats"][j]["column_name"])
    return np.asarray(m)[np.ix_(at, at)]


def gen_corr(rng, i):
    k = rng.choice([2, 3, 3, 4])
    ks = [rng.choice(["int", "float", "int", "float", "text"]) for _ in range(k)]
    b = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        n = rng.choice([2, 3, 4, 7, 15])
        f = []
        for kd in ks:
            v = numeric(rng, n, kd)
            while kd != "text" and not varied(v):
                v = numeric(rng, n, kd)
            f.append(v)
        if rng.random() < .4 and k > 1:      # dependent columns
            s = rng.choice([-2, 1, 3])
            j = rng.randrange(k)
            if ks[j] == "int" and ks[0] == "int" and j:
                f[j] = [str(s * int(x) + rng.randint(0, 1)) for x in f[0]]
                if not varied(f[j]):
                    f[j] = [str(s * int(x)) for x in f[0]]
        b.append(f)
    cols = rng.choice([None, None, [f"c{j}" for j in sorted(rng.sample(range(k), rng.randint(2, k)))]])
    t = tree(rng, list(range(len(b))))
    return {"k": ks, "b": b, "t": t, "o": [rng.sample(range(k), k) if rng.random() < .3 else list(range(k)) for _ in b], "bias": rng.random() < .6, "cols": cols, "corr": True}


def chk_corr(p):
    ks = p["k"]
    names = [f"c{j}" for j in range(len(ks))]

    def play(t):
        if "m" in t:
            c = merge(*(play(s) for s in t["m"]))
        else:
            c = None
        for bi in t["u"]:
            d = df(names, p["b"][bi], p["o"][bi])
            if c is None:
                c = profile(d, options(p))
            else:
                update(c, d)
        return c

    c = play(p["t"])
    ids = [j for j, kd in enumerate(ks) if kd != "text" and (not p["cols"] or names[j] in p["cols"])]
    if len(ids) < 2:
        return None
    whole = [[float(x) for f in p["b"] for x in f[j]] for j in ids]
    want = np.full((len(ks), len(ks)), np.nan)
    want[np.ix_(ids, ids)] = np.corrcoef(np.array(whole))
    got = by_name(c, "correlation_matrix")
    if got is None or np.shape(got) != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-7, equal_nan=True):
        return f"correlation matrix {np.asarray(got).tolist()}, of the whole data {want.tolist()}"
    return None


def gen_imputed(rng, i):
    k = rng.choice([2, 3])
    n = rng.choice([4, 6, 12])
    cols = []
    for _ in range(k):
        v = numeric(rng, n, rng.choice(["int", "float"]))
        v = [None if rng.random() < .25 else x for x in v]
        while len({float(x) for x in v if x is not None}) < 2:
            v = numeric(rng, n, "int")
        cols.append(v)
    if rng.random() < .3:
        for v in cols:
            if len({float(x) for j, x in enumerate(v) if x is not None and j}) > 1:
                v[0] = None
    return {"c": cols, "corr": True}


def chk_imputed(p):
    names = [f"c{j}" for j in range(len(p["c"]))]
    c = profile(df(names, p["c"], None), options(p))
    rows = [j for j in range(len(p["c"][0])) if any(v[j] is not None for v in p["c"])]
    data = []
    for v in p["c"]:
        t = [float(x) for x in v if x is not None]
        m = sum(t) / len(t)
        data.append([m if v[j] is None else float(v[j]) for j in rows])
    want = np.corrcoef(np.array(data))
    got = c.report()["global_stats"]["correlation_matrix"]
    if not np.allclose(got, want, rtol=1e-6, atol=1e-7, equal_nan=True):
        return f"correlation matrix {np.asarray(got).tolist()}, with nulls at the mean {want.tolist()}"
    return None


def chi2_p(a, b):
    na, nb = sum(a.values()), sum(b.values())
    cats = set(a) | set(b)
    if len(cats) <= 1:
        return float("nan")
    if not na or not nb:
        return 0.0
    x = 0.0
    for c in cats:
        t = a.get(c, 0) + b.get(c, 0)
        for cnt, n in ((a, na), (b, nb)):
            e = n * t / (na + nb)
            x += (cnt.get(c, 0) - e) ** 2 / e
    return float(scipy.stats.chi2.sf(x, len(cats) - 1))


def gen_chi(rng, i):
    k = rng.choice([1, 2, 3])
    b = []
    wide = [rng.random() < .2 for _ in range(k)]
    for _ in range(rng.choice([1, 2, 3])):
        n = rng.choice([1, 3, 8, 20])
        b.append([[(str(rng.randint(0, 10 ** 6)) if w else rng.choice(["a", "b", "c", "1", "2"])) if rng.random() < .9 else None for _ in range(n)] for w in wide])
    return {"b": b, "t": tree(rng, list(range(len(b)))), "o": [rng.sample(range(k), k) for _ in b], "chi": True}


def chk_chi(p):
    k = len(p["b"][0])
    names = [f"c{j}" for j in range(k)]

    def play(t):
        c = merge(*(play(s) for s in t["m"])) if "m" in t else None
        for bi in t["u"]:
            if c is None:
                c = profile(df(names, p["b"][bi], p["o"][bi]), options(p))
            else:
                update(c, df(names, p["b"][bi], p["o"][bi]))
        return c

    c = play(p["t"])
    counts = []
    for j in range(k):
        h = {}
        for f in p["b"]:
            for x in f[j]:
                if x is not None:
                    h[x] = h.get(x, 0) + 1
        counts.append(h)
    got = by_name(c, "chi2_matrix")
    allnull = [f for f in leaves(p["t"]) if all(x is None for v in p["b"][f] for x in v)]
    if allnull:
        return None     # a part without any value: the matrix of the other part is kept
    for i in range(k):
        for j in range(k):
            cat = [len(h) <= 10 or len(h) / sum(h.values()) <= .2 for h in (counts[i], counts[j])]
            want = float("nan") if not all(cat) else 1.0 if i == j else chi2_p(counts[i], counts[j])
            if not close(got[i][j], want, 1e-6, 1e-9):
                return f"chi2 matrix at columns {i}, {j}: {got[i][j]}, of the counts {counts[i]} and {counts[j]}: {want}"
    return None


def gen_null(rng, i):
    k = rng.choice([2, 3, 3, 4])
    b, at = [], 0
    for _ in range(rng.choice([1, 2, 2, 3])):
        n = rng.choice([1, 2, 5, 9])
        ix = rng.choice(["same", "next", "gap", "neg", "shuffled"])
        lab = {"same": list(range(n)), "next": list(range(at, at + n)), "gap": [3 * j + 1 for j in range(n)], "neg": [j - 4 for j in range(n)], "shuffled": rng.sample(range(n), n)}[ix]
        at += n
        b.append({"f": [[None if rng.random() < .3 else x for x in numeric(rng, n, "int" if j else "float")] for j in range(k)], "i": lab})
    return {"b": b, "t": tree(rng, list(range(len(b)))), "o": [rng.sample(range(k), k) if rng.random() < .3 else list(range(k)) for _ in b], "null": True, "corr": rng.random() < .2}


def chk_null(p):
    k = len(p["b"][0]["f"])
    names = [f"c{j}" for j in range(k)]

    def play(t):
        c = merge(*(play(s) for s in t["m"])) if "m" in t else None
        for bi in t["u"]:
            b = p["b"][bi]
            if c is None:
                c = profile(df(names, b["f"], p["o"][bi], b["i"]), options(p))
            else:
                update(c, df(names, b["f"], p["o"][bi], b["i"]))
        return c

    c = play(p["t"])
    data = [[x for b in p["b"] for x in b["f"][j]] for j in range(k)]
    if any(all(x is None for x in b["f"][j]) for b in p["b"] for j in range(k)):
        return None     # a column without values in some batch has no data type there
    rep = {d["column_name"]: d for d in c.report()["data_stats"]}
    order = [d["column_name"] for d in c.report()["data_stats"]]
    for j in range(k):
        nulls = [r for r, x in enumerate(data[j]) if x is None]
        got = rep[names[j]].get("null_replication_metrics")
        if not nulls:
            if got is not None:
                return f"null replication metrics of column {names[j]}, which has no nulls: {got}"
            continue
        if got is None:
            return f"no null replication metrics of column {names[j]} with {len(nulls)} nulls"
        n = len(data[j])
        if not close(got["class_prior"][0], 1 - len(nulls) / n) or not close(got["class_prior"][1], len(nulls) / n):
            return f"class prior {got['class_prior']} of column {names[j]}: {len(nulls)} nulls of {n} rows"
        others = [names.index(nm) for nm in order if nm != names[j]]
        for q, o in enumerate(others):
            s1 = sum(float(data[o][r]) for r in nulls if data[o][r] is not None)
            s0 = sum(float(x) for x in data[o] if x is not None) - s1
            if len(nulls) == n:
                s0 = float("nan")
            m1, m0 = s1 / len(nulls), s0 / (n - len(nulls)) if len(nulls) < n else float("nan")
            for key, w in (("class_sum", (s0, s1)), ("class_mean", (m0, m1))):
                g = (got[key][0][q], got[key][1][q])
                if not (close(g[0], w[0], 1e-6, 1e-7) and close(g[1], w[1], 1e-6, 1e-7)):
                    return f"{key} of column {names[o]} by nulls of {names[j]}: {g}, of all rows {w}"
    return None


CHECKS = {"correlation over histories": (gen_corr, chk_corr), "correlation of a batch with nulls": (gen_imputed, chk_imputed), "chi2 matrix": (gen_chi, chk_chi),
          "null replication metrics": (gen_null, chk_null)}

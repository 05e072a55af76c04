"""Runtime contracts of P03: histogram mass, edges, quantiles."""
from .lib import *
from .p01 import KINDS, values, gen_column as _g01


def gen_hist(rng, i):
    p = _g01(rng, i)
    p["bins"] = rng.choice([None, None, None, None, "auto", "sqrt", ["auto", "rice"], ["fd", "sturges", "scott"], 5, 17])
    p["peek"] = rng.random() < 0.5
    p["big"] = rng.random() < 0.05
    return p


def make(p):
    cls, opt = KINDS[p["kind"]]
    o = opt()
    o.bias_correction.is_enabled = p["bias"]
    if p["bins"] is not None:
        o.histogram_and_quantiles.bin_count_or_method = p["bins"]
    return cls("c", o)


def steps(t):
    return len(t["u"]) + sum(steps(s) + 1 for s in t.get("m", ()))


def merged_then_updated(t):
    """a merge result receives a further batch (the re-binned values stand for the originals)"""
    return any(merged_then_updated(s) for s in t.get("m", ())) or bool(t.get("m") and t["u"])


def check_hist(h, n, lo, hi, exact=True):
    """h: {'bin_counts', 'bin_edges'} of n values in [lo, hi]"""
    c, e = np.asarray(h["bin_counts"], dtype=float), np.asarray(h["bin_edges"], dtype=float)
    if len(e) != len(c) + 1:
        return f"{len(c)} bins with {len(e)} edges"
    if (c < 0).any():
        return f"negative bin count {c.min()}"
    if (c != np.round(c)).any():
        return f"fractional bin count {c[c != np.round(c)][0]}"
    if c.sum() != n:
        return f"bin counts sum to {c.sum()}, number of values {n}"
    if (np.diff(e) < 0).any():
        return "edges not ascending"
    if not exact:
        eps = 1e-9 * max(1, abs(lo), abs(hi))
        if e[0] < lo - eps or e[-1] > hi + eps:
            return f"edges [{e[0]}, {e[-1]}] reach outside [{lo}, {hi}]"
        return None
    if not close(e[0], lo, 1e-9, 1e-9) or not close(e[-1], hi, 1e-9, 1e-9):
        return f"edges [{e[0]}, {e[-1]}] do not span [{lo}, {hi}]"
    return None


def chk_hist(p):
    def upd(c, b):
        col_update(c, b)
        if p["peek"]:
            c.profile
    with quiet():
        c = build(p["tree"], lambda: make(p), upd)
    vals = [float(v) for v in values(p["kind"], rows(p["tree"]))]
    for rnd in range(2):
        with quiet():
            prof = c.profile
        h = prof["histogram"]
        if not vals:
            if h["bin_counts"] is not None:
                return "histogram of no values"
            return None
        lo, hi = min(vals), max(vals)
        m = check_hist(h, len(vals), lo, hi, not merged_then_updated(p["tree"]))
        if m:
            return m
        q = prof["quantiles"]
        eps = 1e-9 * max(1, abs(lo), abs(hi))
        q = dict(enumerate(q)) if isinstance(q, (list, tuple)) else dict(enumerate(q[k] for k in sorted(q)))
        qs = [q[k] for k in sorted(q)]
        if any(b < a - eps for a, b in zip(qs, qs[1:])):
            return f"quantiles decrease: {q}"
        if any(v < lo - eps or v > hi + eps for v in qs):
            return f"quantiles {q} outside [{lo}, {hi}]"
        med = prof["median"]
        if not (lo - eps <= med <= hi + eps):
            return f"median {med} outside [{lo}, {hi}]"
        for mo in prof["mode"]:
            if not (lo - eps <= mo <= hi + eps):
                return f"mode {mo} outside [{lo}, {hi}]"
        mad = prof["median_abs_deviation"]
        if not (-eps <= mad <= hi - lo + eps):
            return f"median absolute deviation {mad} outside [0, {hi - lo}]"
        # ranks, up to one bin width per step
        nb = p["bins"] if isinstance(p["bins"], int) else 1000
        w = (hi - lo) / nb + (0 if p["kind"] == "float" else 0.5)
        tol = w * (steps(p["tree"]) + 1) + eps
        n = len(vals)
        for name, frac, v in [("median", .5, med)] + [(f"quantile {k}", (k + 1) / (len(q) + 1), q[k]) for k in sorted(q)]:
            if sum(x <= v + tol for x in vals) < frac * n - 1e-6:
                return f"{name} = {v}: fewer than {frac} of the values are <= it (tolerance {tol})"
            if sum(x < v - tol for x in vals) > frac * n + 1e-6:
                return f"{name} = {v}: more than {frac} of the values are < it (tolerance {tol})"
    return None


def gen_assim(rng, i):
    n, m = rng.choice([1, 1, 2, 3, 6, 10]), rng.choice([1, 2, 3, 7, 12])
    fe = sorted(round(rng.uniform(-10, 10), 2) for _ in range(n + 1))
    if rng.random() < .2:
        fe = [fe[0]] * (n + 1)
    lo, hi = (fe[0], fe[-1]) if rng.random() < .6 else (rng.uniform(-15, 0), rng.uniform(0, 15))
    return {"counts": [rng.choice([0, 0, 1, 2, 7, 100]) for _ in range(n)], "edges": fe, "lo": lo, "hi": hi, "bins": m,
            "have": [rng.choice([0, 1, 5]) for _ in range(m)]}


def chk_assim(p):
    from dataprofiler.profilers.float_column_profile import FloatColumn
    c = FloatColumn("c")
    fc, fe = np.array(p["counts"]), np.array(p["edges"])
    dc, de = np.array(p["have"], dtype=float), np.linspace(p["lo"], p["hi"], p["bins"] + 1)
    keep = fc.copy(), fe.copy(), de.copy()
    if not hasattr(c, "_assimilate_histogram"):
        raise Skip()
    r, loss = c._assimilate_histogram(fc, fe, dc, de, p["bins"])
    c2 = np.asarray(r["bin_counts"])
    if c2.sum() != sum(p["counts"]) + sum(p["have"]) or (c2 < 0).any() or (c2 != np.round(c2)).any():
        return f"assimilated counts {c2.tolist()} from {p['counts']} into {p['have']}"
    if not all((a == b).all() for a, b in zip(keep, (fc, fe, de))):
        return "assimilation changed its source"
    return None


CHECKS = {"histogram history": (gen_hist, chk_hist), "assimilate": (gen_assim, chk_assim)}

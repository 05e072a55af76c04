"""P03: histograms account for every value."""
from __future__ import annotations

from .common import *
from .columns import make_column, column_class, KINDS
from dv.arrays import SymArray, fresh_array, T, F
from dv import shims
from dv.core import PathKill, need


def hist(ctx, name, kind="float"):
    """an arbitrary well-formed histogram: n >= 1 bins, non-negative integral counts, ascending edges"""
    n = ctx.fresh(name + ".bins", z3.IntSort())
    ctx.assume(n >= 1)
    counts = fresh_array(name + ".counts", n, kind, nonneg=True, integral=True, with_sum=True)
    edges = fresh_array(name + ".edges", n + 1, "float", asc=True)
    return n, counts, edges


def frozen(a):
    return a._dv_content()


def same_content(ctx, name, a, before):
    ctx.prove(name, a._dv_content() == before)


def column():
    c = make_column("float", off=())
    return c


def wf(ctx, tag, counts, edges, total, nbins=None, first=None, last=None):
    """the observable histogram contract"""
    ctx.prove(f"{tag}: bin counts sum to the number of values", to_real(counts.total) == total)
    ctx.prove(f"{tag}: no negative bin count", counts.nonneg)
    ctx.prove(f"{tag}: bin counts are whole numbers", counts.integral)
    ctx.prove(f"{tag}: one edge more than bins", edges.n == counts.n + 1)
    ctx.prove(f"{tag}: edges ascend", edges.asc)
    if nbins is not None:
        ctx.prove(f"{tag}: number of bins", counts.n == nbins)
    if first is not None:
        ctx.prove(f"{tag}: first edge", edges.at(z3.IntVal(0)).e == first)
        ctx.prove(f"{tag}: last edge", edges.at(edges.n - 1).e == last)


def assimilate(ctx):
    col = column()
    n, fc, fe = hist(ctx, "from")
    m, dc, de = hist(ctx, "dest")
    t0, bf, be, bd = dc.total, frozen(fc), frozen(fe), frozen(de)
    res, loss = need(col, "_assimilate_histogram")(
        from_hist_entity_count_per_bin=fc, from_hist_bin_edges=fe, dest_hist_entity_count_per_bin=dc,
        dest_hist_bin_edges=de, dest_hist_num_bin=SymNum(m, "int"))
    wf(ctx, "assimilate", res["bin_counts"], res["bin_edges"], t0 + fc.total, m)
    ctx.prove("assimilate: accumulates into the destination", res["bin_counts"] is dc)
    same_content(ctx, "assimilate: source counts untouched", fc, bf)
    same_content(ctx, "assimilate: source edges untouched", fe, be)
    same_content(ctx, "assimilate: destination edges untouched", de, bd)



# ---------------------------------------------------------------- histories
KEEP = ("min", "max", "histogram_and_quantiles")
BINS = {"auto": "auto", "two": ["auto", "rice"], "five": 5}


class _Cur:
    def __getattr__(self, n):
        return getattr(Ctx.cur, n)


def hist_column(ctx, kind, bins):
    """a column class with only min, max and histogram enabled; callees proved elsewhere replaced by their contracts"""
    cls = column_class(kind)
    o = getattr(env().profiler_options, KINDS[kind][2])()
    for k in list(o.__dict__):
        v = getattr(o, k)
        if hasattr(v, "is_enabled") and k not in KEEP and k != "is_enabled" and k != "bias_correction":
            try:
                v.is_enabled = False
            except Exception:
                pass
    o.histogram_and_quantiles.bin_count_or_method = BINS[bins]
    ns = {}
    shims.ALWAYS.add("zeros")
    ctx = _Cur()
    if hasattr(cls, "_assimilate_histogram"):
        def _assimilate(self, from_hist_entity_count_per_bin, from_hist_bin_edges, dest_hist_entity_count_per_bin,
                        dest_hist_bin_edges, dest_hist_num_bin):
            f, fe, d, de = (from_hist_entity_count_per_bin, from_hist_bin_edges, dest_hist_entity_count_per_bin,
                            dest_hist_bin_edges)
            k = num_expr(dest_hist_num_bin)
            f, fe = sym(f), sym(fe)
            ctx.prove("assimilate precondition: source is a histogram",
                      z3.And(f.nonneg, f.integral, fe.asc, fe.n == f.n + 1, f.n >= 1))
            ctx.prove("assimilate precondition: destination is a histogram",
                      z3.And(d.nonneg, d.integral, de.asc, de.n == d.n + 1, d.n == k, k >= 1))
            t = z3.simplify(d.total + f.total)
            r = fresh_array("assimilated", d.n, "float", nonneg=True, integral=True, with_sum=True, inp=False)
            ctx.assume(r.total == t)
            for a in ("_at", "total", "nonneg", "integral", "asc", "psum"):
                setattr(d, a, getattr(r, a))
            loss = ctx.fresh("loss", z3.RealSort())
            ctx.assume(loss >= 0)
            return {"bin_edges": de, "bin_counts": d}, SymNum(loss, "float", True)
        ns["_assimilate_histogram"] = _assimilate
    if hasattr(cls, "_histogram_bin_error"):
        def _bin_error(self, input_array):
            loss = ctx.fresh("binerror", z3.RealSort())
            ctx.assume(loss >= 0)
            return SymNum(loss, "float", True)
        ns["_histogram_bin_error"] = _bin_error
    if hasattr(cls, "_get_quantiles"):
        ns["_get_quantiles"] = lambda self: None
    for k, f in ns.items():
        setattr(cls, k, f)
    hu = env().mod("profilers.histogram_utils")

    def suggested(*a, **k):
        v = ctx.fresh("suggested", z3.IntSort())
        ctx.assume(v >= 1)
        return SymNum(v, "int")
    if hasattr(hu, "_get_bin_edges"):
        hu._get_bin_edges = lambda *a, **k: (None, suggested())
    if hasattr(hu, "_calculate_bins_from_profile"):
        hu._calculate_bins_from_profile = suggested
    return cls("c", o)


def sym(a):
    """a literal numpy array as a symbolic one"""
    if isinstance(a, SymArray):
        return a
    from dv.bags import from_list
    return from_list(list(a))


def whole_number(ctx, *es):
    for e in es:
        ctx.assume(e == z3.ToReal(ctx.fresh("whole", z3.IntSort())))
        ctx.__dict__.setdefault("wholes", []).append(e)


def arbitrary_column(ctx, kind, bins, name):
    """any state a history of updates and merges can leave: a well-formed histogram of all values, spanning a
    subinterval of [min, max]; returns the column and (n, lo, hi)"""
    col = hist_column(ctx, kind, bins)
    if ctx.choose(["data", "no data"], name) == "no data":
        return col, (z3.IntVal(0), None, None)
    st = need(col, "_stored_histogram")
    need(col, "histogram_methods")
    n = ctx.fresh(name + ".n", z3.IntSort())
    ctx.assume(n >= 1)
    lo, hi = (ctx.fresh(f"{name}.{k}", z3.RealSort()) for k in ("lo", "hi"))
    ctx.assume(lo <= hi)
    if kind != "float":
        whole_number(ctx, lo, hi)
    col.match_count = SymNum(n, "int")
    col.sample_size = SymNum(n, "int")
    col.min, col.max = SymNum(lo, "float", True), SymNum(hi, "float", True)
    if ctx.choose(["varied", "constant"], name + " shape") == "constant":
        k, cnt, edg = None, np.array([0]), None
        from dv.bags import from_list
        cnt = from_list([SymNum(n, "int")])
        edg = from_list([SymNum(lo, "float"), SymNum(lo, "float")])
        ctx.assume(lo == hi)
    else:
        k, cnt, edg = hist(ctx, name)
        ctx.assume(cnt.total == z3.ToReal(n))
        ctx.assume(z3.And(lo <= edg.at(z3.IntVal(0)).e, edg.at(edg.n - 1).e <= hi))
    st["histogram"]["bin_counts"], st["histogram"]["bin_edges"] = cnt, edg
    loss = ctx.fresh(name + ".loss", z3.RealSort())
    ctx.assume(loss >= 0)
    st["total_loss"] = SymNum(loss, "float", True)
    # per method: nothing yet, or a well-formed histogram of the same values (after a report)
    made = k is None or ctx.choose([False, True], name + " reported before")
    for i, (nm, m) in enumerate(col.histogram_methods.items()):
        if k is None:
            m["histogram"] = {"bin_counts": cnt, "bin_edges": edg}
            m["suggested_bin_count"] = 1
        else:
            s = ctx.fresh(name + ".suggested", z3.IntSort())
            ctx.assume(s >= 1)
            m["suggested_bin_count"] = SymNum(s, "int")
            if made:
                _, mc, me = hist(ctx, f"{name}.{nm}")
                ctx.assume(mc.total == z3.ToReal(n))
                ctx.assume(z3.And(lo <= me.at(z3.IntVal(0)).e, me.at(me.n - 1).e <= hi))
                m["histogram"] = {"bin_counts": mc, "bin_edges": me}
        if made and i == len(col.histogram_methods) - 1 and ctx.choose([False, True], name + " selection made"):
            col.histogram_selection = nm
    return col, (n, lo, hi)


def batch(ctx, kind, name):
    """(series, n, lo, hi)"""
    s = RawSeries(name, classes=("frac",) if kind == "float" else ("int",), moments=False)
    d = s.lens() if kind == "text" else s.sub(("frac",) if kind == "float" else ("int",)).numeric()
    if kind != "float":
        whole_number(ctx, d.lo, d.hi)
    return s, d.n, d.lo, d.hi


def invariant(ctx, tag, col, tot):
    """the class invariant assumed of the start state holds again"""
    if col.min is None:
        ctx.prove(f"{tag}: min known when there are values", False)
        return
    lo, hi = to_real(num_expr(col.min)), to_real(num_expr(col.max))
    ctx.prove(f"{tag}: min <= max", lo <= hi)
    st = col._stored_histogram["histogram"]
    hs = [("stored", st)] + [(m, d["histogram"]) for m, d in col.histogram_methods.items()
                             if d["histogram"]["bin_counts"] is not None]
    for nm, h in hs:
        if h["bin_counts"] is None:
            ctx.prove(f"{tag}: histogram stored", False)
            return
        c, e = sym(h["bin_counts"]), sym(h["bin_edges"])
        wf(ctx, f"{tag} invariant ({nm})", c, e, tot)
        ctx.prove(f"{tag} invariant ({nm}): edges within [min, max]",
                  z3.And(lo <= e.at(z3.IntVal(0)).e, e.at(e.n - 1).e <= hi))
    for m, d in col.histogram_methods.items():
        ctx.prove(f"{tag} invariant: suggested bin count positive", to_real(num_expr(d["suggested_bin_count"])) >= 1)


def observe(ctx, tag, col, parts):
    ctx.alive()
    tot = z3.RealVal(0)
    for n, _, _ in parts:
        tot = tot + to_real(n)
    for again in range(2):
        if again:
            ctx.alive()
        if hasattr(col, "_stored_histogram") and hasattr(col, "histogram_methods") and ctx.branch(tot > 0, "some values"):
            invariant(ctx, tag, col, tot)
        if not again:
            r = report(ctx, tag, col, tot)
    return r


def report(ctx, tag, col, tot):
    p = col.profile
    h = p["histogram"]
    ctx.alive()
    if not ctx.branch(tot > 0, "some values"):
        ctx.prove(f"{tag}: no histogram without values", h["bin_counts"] is None)
        return
    ctx.run.cover("values")
    if h["bin_counts"] is None:
        ctx.prove(f"{tag}: a histogram is reported", False)
        return
    c, e = sym(h["bin_counts"]), sym(h["bin_edges"])
    wf(ctx, tag, c, e, tot)
    lo, hi = to_real(num_expr(col.min)), to_real(num_expr(col.max))
    ctx.prove(f"{tag}: edges lie between the smallest and largest value",
              z3.And(lo <= e.at(z3.IntVal(0)).e, e.at(e.n - 1).e <= hi))
    return c, e, lo, hi


def hist_single(ctx, kind, bins):
    col = hist_column(ctx, kind, bins)
    s, n, lo, hi = batch(ctx, kind, "b")
    col.update(s)
    r = observe(ctx, f"{kind} single", col, [(n, lo, hi)])
    if r:
        c, e, lo, hi = r
        ctx.prove(f"{kind} single: edges span the data", z3.And(e.at(z3.IntVal(0)).e == lo, e.at(e.n - 1).e == hi))


def hist_update(ctx, kind, bins, after=False):
    col, p1 = arbitrary_column(ctx, kind, bins, "c1")
    s, n, lo, hi = batch(ctx, kind, "b")
    col.update(s)
    observe(ctx, f"{kind} update", col, [p1, (n, lo, hi)])


def hist_merge(ctx, kind, bins, more=False):
    a, p1 = arbitrary_column(ctx, kind, bins, "c1")
    b, p2 = arbitrary_column(ctx, kind, bins, "c2")
    r = a + b
    observe(ctx, f"{kind} merge", r, [p1, p2])


PROOFS = {"assimilate": (assimilate, {"weight": 3})}
for _k in ("float", "int", "text"):
    for _b in BINS if _k == "float" else ("auto",):
        PROOFS[f"single {_k} {_b}"] = (lambda c, k=_k, b=_b: hist_single(c, k, b), {"covers": ["values"]})
        PROOFS[f"update {_k} {_b}"] = (lambda c, k=_k, b=_b: hist_update(c, k, b), {"weight": 4, "covers": ["values"]})
        PROOFS[f"merge {_k} {_b}"] = (lambda c, k=_k, b=_b: hist_merge(c, k, b), {"weight": 4, "covers": ["values"]})
ASSUMPTIONS = ["data are finite; np.histogram puts every value in a bin and its end bins hold the extremes",
               "the bin-count selectors of histogram_utils return a whole number >= 1 and the binning loss is a "
               "non-negative number (contracts assumed; exercised by the runtime contracts)"]
TRUSTED = ["within the history harnesses _assimilate_histogram is replaced by its contract, which harness 'assimilate' "
           "proves of the real function"]
BOUNDED = ["quantiles, median, mode and median absolute deviation (order, range, rank up to one bin width per step): "
           "seeded runtime contracts only"]

"""P13: statistics of pairs of columns.

Ghost of the rows of two columns t, u: their number n, the sums of x, of y and of x*y, written with the mean m(t) and the central sums
S(t, u) = sum of (x - m(t)) * (y - m(u)).  Correlation of the rows: S(t, u) / ((n - 1) * sd(t) * sd(u)), sd(t)^2 = S(t, t) / (n - 1)."""
from __future__ import annotations

import itertools
import types

from .common import *
from dv import shims
from dv.core import Sym, need
from . import p07


class Rows:
    """ghost: a set of at least two rows in which no column is constant"""

    def __init__(self, ctx, name, base=None):
        self.name = name
        self.n = ctx.fresh(name + ".rows", z3.RealSort())
        ctx.assume(self.n >= 2)
        ctx.know_nonneg(self.n)
        ctx.inputs[name + ".rows"] = N(self.n)
        self.base = base
        self.ms, self.ss, self.sds = {}, {}, {}

    def m(self, t):
        """the mean; relative to the other part's, so that squares of differences stay visible"""
        if t not in self.ms:
            d = Ctx.cur.fresh(f"{self.name}.mean {t}", z3.RealSort())
            Ctx.cur.inputs[f"{self.name}.mean {t}"] = N(d)
            self.ms[t] = d if self.base is None else self.base.m(t) + d
        return self.ms[t]

    def S(self, t, u):
        k = tuple(sorted((t, u), key=str))
        if k not in self.ss:
            c = Ctx.cur
            s = c.fresh(f"{self.name}.S {k[0]} {k[1]}", z3.RealSort())
            c.inputs[f"{self.name}.S {k[0]} {k[1]}"] = N(s)
            if t == u:
                c.assume(s > 0)
                c.know_nonneg(s)
            self.ss[k] = s
        return self.ss[k]

    def sd(self, t):
        if t not in self.sds:
            self.sds[t] = sqrt(N(self.S(t, t) / (self.n - 1)))
        return self.sds[t]

    def corr(self, t, u):
        return N(self.S(t, u)) / (N(self.n - 1) * self.sd(t) * self.sd(u))


class Both(Rows):
    """the rows of two parts together, by sums"""

    def __init__(self, a, b):
        self.n, self.a, self.b = a.n + b.n, a, b
        self.sds = {}

    def m(self, t):
        return (self.a.n * self.a.m(t) + self.b.n * self.b.m(t)) / self.n

    def S(self, t, u):
        xy = sum(p.S(t, u) + p.n * p.m(t) * p.m(u) for p in (self.a, self.b))
        x, y = (sum(p.n * p.m(k) for p in (self.a, self.b)) for k in (t, u))
        return z3.simplify(xy - x * y / self.n)


# ------------------------------------------------------------------ arrays over any number of columns
class Grid(Sym):
    """entries by column (rank 1) or pair of columns (rank 2): every operation is per entry"""
    rep_type = np.ndarray

    def __init__(self, f, axes):
        self.f, self.axes = f, axes      # axes: tuple of True (columns) / False (one entry)

    ndim = property(lambda s: len(s.axes))

    @property
    def T(self):
        return Grid(lambda *ix: self.f(*ix[::-1]), self.axes[::-1])

    def _dv_len(self):
        v = Ctx.cur.__dict__.setdefault("columns", None)
        if v is None:
            v = Ctx.cur.columns = p07.num(Ctx.cur, "number of columns", 1)
        return v

    def copy(self):
        return self

    def astype(self, t):
        return self

    def _op(self, o, f):
        if not isinstance(o, Grid):
            if isinstance(o, (list, np.ndarray)):
                Ctx.cur.stop(Unsupported("mixed arrays"))
            return Grid(lambda *ix: f(self.f(*ix), o), self.axes)
        n = max(self.ndim, o.ndim)
        a, b = (False,) * (n - self.ndim) + self.axes, (False,) * (n - o.ndim) + o.axes

        def at(g, ix):
            ix = ix[n - g.ndim:]
            return g.f(*[i for i, real in zip(ix, g.axes) if real or True])
        return Grid(lambda *ix: f(at(self, ix), at(o, ix)), tuple(x or y for x, y in zip(a, b)))

    def __getitem__(self, k):
        if k in ((slice(None), None), (slice(None), np.newaxis)) and self.ndim == 1:
            return Grid(lambda i, j: self.f(i), (True, False))
        if k in ((None, slice(None)),) and self.ndim == 1:
            return Grid(lambda i, j: self.f(j), (False, True))
        Ctx.cur.stop(Unsupported(f"entry {k!r} of an array over columns"))

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        return self[:, None] if s == (-1, 1) else self[None, :] if s == (1, -1) else Ctx.cur.stop(Unsupported("reshape"))

    __add__ = __radd__ = lambda s, o: s._op(o, lambda x, y: x + y)
    __sub__ = lambda s, o: s._op(o, lambda x, y: x - y)
    __rsub__ = lambda s, o: s._op(o, lambda x, y: y - x)
    __mul__ = __rmul__ = lambda s, o: s._op(o, lambda x, y: x * y)
    __truediv__ = lambda s, o: s._op(o, lambda x, y: x / y)
    __rtruediv__ = lambda s, o: s._op(o, lambda x, y: y / x)
    __pow__ = lambda s, o: s._op(o, lambda x, y: x ** y)
    __neg__ = lambda s: s._op(-1, lambda x, y: x * y)
    __iter__ = lambda s: Ctx.cur.stop(Unsupported("a loop over columns"))


def np_grid():
    """numpy on arrays over any number of columns"""
    def outer(a, b):
        return Grid(lambda i, j: a.f(i) * b.f(j), (True, True))

    def diag(a):
        return Grid(lambda i: a.f(i, i), (True,)) if a.ndim == 2 else Ctx.cur.stop(Unsupported("diag"))

    def each(f):
        return lambda a: Grid(lambda *ix: f(a.f(*ix)), a.axes) if isinstance(a, Grid) else f(a)
    e = dict(outer=outer, diag=diag, diagonal=diag, sqrt=each(sqrt), square=each(lambda x: x * x), asarray=lambda a, *x, **k: a, array=lambda a, *x, **k: a,
             copy=lambda a: a, transpose=lambda a: a.T, power=lambda a, k: a ** k, float64=None)
    for nm in ("add", "subtract", "multiply", "divide", "true_divide", "negative"):
        pass
    return shims.make_np({k: v for k, v in e.items() if v})


def helper(ctx):
    """StructuredProfiler._merge_correlation_helper, any number of columns: entry (t, u) of the result"""
    pb = p07.mod()
    f = need(pb.StructuredProfiler, "_merge_correlation_helper")
    pb.np = np_grid()
    a = Rows(ctx, "first")
    b = Rows(ctx, "second", a)
    arr = lambda p: (Grid(p.corr, (True, True)), Grid(lambda t: N(p.m(t)), (True,)), Grid(p.sd, (True,)), N(p.n))
    none = ctx.choose([None, 0, 1], "no matrix yet")
    one, two = list(arr(a)), list(arr(b))
    if none is not None:
        (one, two)[none][0] = None
    r = f(*one, *two)
    ctx.alive()
    if none is not None:
        ctx.run.cover("one part")
        ctx.prove("the matrix of the only part", r is (one, two)[1 - none][0])
        return
    ctx.run.cover("merged")
    if not isinstance(r, Grid) or r.ndim != 2:
        ctx.stop(Unsupported("the result is no matrix over columns"))
    w = Both(a, b)
    t, u = "t", "u"
    sd = {k: sqrt(N(w.S(k, k)) / N(w.n - 1)) for k in (t, u)}
    got = r.f(t, u)
    ctx.alive()
    ctx.prove_eq("correlation of two columns over all rows", got * sd[t] * sd[u] * N(w.n - 1), N(w.S(t, u)))
    ctx.prove_eq("correlation of a column with itself", r.f(t, t), N(z3.RealVal(1)))
    ctx.prove_eq("symmetric", r.f(u, t), got)


# ------------------------------------------------------------------ arrays over a few columns
class ObjNp(types.ModuleType):
    """numpy on arrays of a few columns whose entries may be symbolic"""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        return getattr(np, n)

    float64 = np.float64

    def full(self, shape, v, dtype=None):
        a = np.empty(shape, dtype=object)
        a[...] = v
        return a

    def zeros(self, shape, dtype=None):
        return self.full(shape, 0.0)

    def array(self, x, dtype=None, copy=True):
        return np.array(x, dtype=object)

    def asarray(self, x, dtype=None):
        return np.asarray(x, dtype=object)

    def sqrt(self, x):
        return np.vectorize(sqrt, otypes=[object])(x) if isinstance(x, np.ndarray) and x.size else sqrt(x)

    def isnan(self, x):
        f = lambda v: False if is_sym(v) else v != v
        return np.vectorize(f, otypes=[bool])(x) if isinstance(x, np.ndarray) else f(x)


def install(pb):
    pb.np = ObjNp()
    d = types.SimpleNamespace(**vars(pb.__dict__["__dv__"]))
    return pb


def few(ctx, numeric=True):
    k = ctx.choose([2, 3], "number of columns")
    names = ["x", "y", "z"][:k]
    perm = ctx.choose([(0, 1), (1, 0)] if k == 2 else [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1)], "order of the second profile")
    return names, [names[i] for i in perm]


def opts():
    o = env().profiler_options.StructuredOptions()
    o.data_labeler.is_enabled = o.chi2_homogeneity.is_enabled = False
    return o


class Column:
    """a column profile reduced to what the statistics of pairs read"""

    def __init__(self, name, rows, kind, nulls=0, total=None, sum_=None):
        self.name, self.null_count = name, nulls
        self.sample_size = total if total is not None else N(rows.n, "int")
        stat = types.SimpleNamespace(match_count=N(rows.n) if rows else None, mean=N(rows.m(name)) if rows else None, sum=sum_)
        if rows:
            stat._biased_variance = N(rows.S(name, name) / rows.n)
            stat.biased = True
        self.profiles = {"data_type_profile": types.SimpleNamespace(selected_data_type=kind, _profiles={kind: stat})}
        self.stat = stat
        # reported statistics, for either setting of the bias correction
        self.bias = None
        self.rows = rows

    @property
    def profile(self):
        r = self.rows
        v = N(r.S(self.name, self.name) / (r.n - 1 if Ctx.cur.corrected else r.n))
        return {"statistics": {"mean": N(r.m(self.name)), "variance": v, "stddev": sqrt(v)}}

    def report(self, remove_disabled_flag=False):
        return self.profile


def prof(pb, o, names, rows, kinds):
    p = pb.StructuredProfiler(None, options=o)
    p.total_samples, p.row_is_null_count = N(rows.n), 0
    for i, c in enumerate(names):
        p._col_name_to_idx[c].append(i)
        p._profile.append(Column(c, rows, kinds[c]))
    k = len(names)
    p.correlation_matrix = np.full((k, k), np.nan, dtype=object)
    for i, j in itertools.product(range(k), repeat=2):
        if kinds[names[i]] != "text" and kinds[names[j]] != "text":
            p.correlation_matrix[i, j] = rows.corr(names[i], names[j])
    return p


def merge_corr(ctx):
    """StructuredProfiler._merge_correlation with _get_correlation_dependent_properties: two or three columns, some of text, in any order,
    for either bias correction; _merge_correlation_helper by its contract (proved above)"""
    pb = install(p07.mod())
    f = need(pb.StructuredProfiler, "_merge_correlation")
    need(pb.StructuredProfiler, "_merge_correlation_helper")
    names, other = few(ctx)
    kinds = {c: "float" for c in names}
    if len(names) == 3 and ctx.choose([False, True], "a text column"):
        kinds[ctx.choose(names, "which")] = "text"
    ctx.corrected = ctx.choose([True, False], "bias correction")
    a = Rows(ctx, "first")
    b = Rows(ctx, "second", a)
    p, q = prof(pb, opts(), names, a, kinds), prof(pb, opts(), other, b, kinds)
    given = {}

    def contract(c1, m1, s1, n1, c2, m2, s2, n2):
        for tag, rows, c, m, s, n in (("first", a, c1, m1, s1, n1), ("second", b, c2, m2, s2, n2)):
            ctx.prove_eq(f"precondition: rows of the {tag} profile", n, N(rows.n))
            for i, t in enumerate(names):
                if kinds[t] == "text":
                    continue
                ctx.prove_eq(f"precondition: mean of {t} in the {tag} profile", m[i], N(rows.m(t)))
                ctx.prove_eq(f"precondition: sample standard deviation of {t} in the {tag} profile", s[i], rows.sd(t))
                for j, u in enumerate(names):
                    if kinds[u] != "text":
                        ctx.prove_eq(f"precondition: correlation of {t} and {u} in the {tag} profile", c[i, j], rows.corr(t, u))
        given["r"] = np.full((len(names),) * 2, np.nan)
        return given["r"]
    pb.StructuredProfiler._merge_correlation_helper = staticmethod(contract)
    r = f(p, q)
    ctx.alive()
    ctx.run.cover("merged")
    ctx.prove("the merged matrix is the result of the contract", r is given.get("r"))


def chi2(ctx):
    """StructuredProfiler._update_chi2 over one to three columns, each categorical or not: which test stands where"""
    pb = install(p07.mod())
    f = need(pb.StructuredProfiler, "_update_chi2")
    k = ctx.choose([1, 2, 3], "number of columns")
    cats = [ctx.choose([True, False], f"column {i} is categorical") for i in range(k)]
    p = pb.StructuredProfiler(None, options=opts())
    for i in range(k):
        cat = types.SimpleNamespace(is_match=cats[i], categorical_counts=("counts", i), _categories=("counts", i), sample_size=("rows", i))
        p._profile.append(types.SimpleNamespace(profiles={"data_stats_profile": types.SimpleNamespace(_profiles={"category": cat})}))
    pv = {}

    def test(c1, n1, c2, n2):
        i, j = c1[1], c2[1]
        ctx.prove("the test is of two columns' counts and sample sizes", c1[0] == c2[0] == "counts" and n1 == ("rows", i) and n2 == ("rows", j))
        key = frozenset((i, j))
        if key not in pv:
            pv[key] = real(f"p-value {min(key)} {max(key)}")
        return {"chi2-statistic": 0.0, "deg_of_free": 1, "p-value": pv[key]}
    pb.profiler_utils.perform_chi_squared_test_for_homogeneity = test
    m = f(p)
    ctx.alive()
    ctx.run.cover("matrix")
    ctx.prove("one row and column per column", np.shape(m) == (k, k))
    for i, j in itertools.product(range(k), repeat=2):
        if not (cats[i] and cats[j]):
            ctx.prove("no number for a column that is not categorical", not is_sym(m[i, j]) and m[i, j] != m[i, j])
        elif i == j:
            ctx.prove_eq("1 for a column with itself", m[i, i], 1)
        else:
            ctx.prove("a test was made", frozenset((i, j)) in pv)
            ctx.prove_eq("the p-value of the two columns", m[i, j], pv[frozenset((i, j))])


def merge_null(ctx):
    """StructuredProfiler._merge_null_replication_metrics: two or three columns in any order, some without nulls"""
    pb = install(p07.mod())
    f = need(pb.StructuredProfiler, "_merge_null_replication_metrics")
    names, other = few(ctx)
    parts = []
    pick = lambda tag: [c for c, on in zip(names, ctx.choose([(1, 1, 1), (0, 0, 0), (1, 0, 1), (0, 1, 0)], f"columns with nulls in the {tag} profile")) if on]
    nullable, nullable2 = pick("first"), pick("second")
    for tag, order, nl in (("first", names, nullable), ("second", other, nullable2)):
        g = types.SimpleNamespace(n=p07.num(ctx, tag + " rows", 1), nulls={}, sum={}, at={})
        p = pb.StructuredProfiler(None, options=opts())
        p._null_replication_metrics = {}
        for i, c in enumerate(order):
            g.sum[c] = real(f"{tag} sum of {c}", npy=True)
            g.nulls[c] = p07.num(ctx, f"{tag} nulls of {c}", 1) if c in nl else 0
            if c in nl:
                ctx.assume(g.nulls[c].e <= g.n.e)
            p._col_name_to_idx[c].append(i)
            p._profile.append(Column(c, None, "float", g.nulls[c], g.n, g.sum[c]))
        for i, c in enumerate(order):
            if c in nl:
                for d in order:
                    if d != c:
                        g.at[c, d] = real(f"{tag} sum of {d} where {c} is null", npy=True)
                rest = [g.at[c, d] for d in order if d != c]
                junk = [real(f"{tag} other sum {c} {d}", npy=True) for d in order if d != c]
                p._null_replication_metrics[i] = {"class_prior": [real("prior 0"), real("prior 1")], "class_sum": [junk, rest], "class_mean": [junk, junk]}
        parts.append((p, g))
    (p, a), (q, b) = parts
    m = f(p, q)
    ctx.alive()
    ctx.run.cover("merged")
    n = a.n + b.n
    for i, c in enumerate(names):
        nulls = a.nulls[c] + b.nulls[c]
        if c not in nullable and c not in nullable2:
            ctx.prove("no metrics of a column without nulls", i not in m)
            continue
        ctx.prove("metrics of every column with nulls", i in m)
        r = m[i]
        ctx.prove_eq("share of null rows", r["class_prior"][1], nulls / n)
        ctx.prove_eq("share of other rows", r["class_prior"][0], (n - nulls) / n)
        some = branch((n - nulls).e > 0, f"{c} has values")
        for k, d in enumerate(x for x in names if x != c):
            s1 = a.at.get((c, d), 0) + b.at.get((c, d), 0)
            s0 = a.sum[d] + b.sum[d] - s1
            nan = float("nan")
            ctx.prove_eq("sum of another column over null rows", r["class_sum"][1][k], s1)
            ctx.prove_eq("sum of another column over the other rows", r["class_sum"][0][k], s0 if some else nan)
            ctx.prove_eq("mean over null rows", r["class_mean"][1][k], s1 / nulls)
            ctx.prove_eq("mean over the other rows", r["class_mean"][0][k], s0 / (n - nulls) if some else nan)
    ctx.prove("nothing else", set(m) == {i for i, c in enumerate(names) if c in nullable or c in nullable2})


PROOFS = {"merging correlations": (helper, {"covers": ["merged", "one part"]}),
          "correlations of two profiles": (merge_corr, {"covers": ["merged"], "weight": 3}),
          "chi2 matrix": (chi2, {"covers": ["matrix"]}),
          "null replication of two profiles": (merge_null, {"covers": ["merged"], "weight": 3})}
ASSUMPTIONS = ["every part has at least two rows and no column constant in it, and no nulls (the statement's condition for correlation)"]
TRUSTED = ["np.corrcoef of a batch is the correlation of its rows; np.outer and arithmetic of arrays are per entry"]
BOUNDED = ["'correlations of two profiles', 'chi2 matrix', 'null replication of two profiles': up to three columns (any rows and values)",
           "batch correlation, batch null replication (pandas), chi2 values and the whole path from data to report: seeded runtime contracts"]

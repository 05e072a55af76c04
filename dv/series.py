"""pandas Series as seen by the numeric profilers: arbitrary finite data of
unbounded length described by its exact statistics (ghost state)."""
from __future__ import annotations

import z3
import numpy as np

from .core import (Ctx, Sym, SymBool, SymNum, Unsupported, as_bool_expr, is_sym, isspecial, num_expr, sdiv, to_real)
from .arrays import SymMask, SymArray
from .loops import SymIter


NOISE = z3.RealVal("1/100000000000000")
R0 = z3.RealVal(0)


class Data:
    """a finite multiset of real numbers: count n, mean, central moment sums.

    The case split (empty / constant / varied, third moment zero or not) makes
    the zero moments concrete.  noise: moment sums of varied data are at least
    1e-14 in magnitude (the library's own floating point noise threshold)."""

    def __init__(self, name, n=None, rel=None, noise=True, moments=True):
        c = Ctx.cur
        self.name = name
        R = z3.RealSort()
        if n is None:
            # the count is an integer; the logic relaxes it to a real >= 0 so that
            # the moment algebra stays in one theory
            if c.choose(["nonempty", "empty"], f"{name} size") == "empty":
                n = R0
            else:
                n = c.fresh(name + ".n", R)
                c.assume(n >= 1)
                c.know_nonneg(n)
        self.n = n
        self.counts = {}
        self.case = "empty"
        if z3.is_rational_value(n) and n.numerator_as_long() == 0:
            self.mu = self.M2 = self.M3 = self.M4 = self.lo = self.hi = R0
            return
        if rel is None or rel.case == "empty" or not moments:
            self.mu = c.fresh(name + ".mean", R)
        else:           # mean written as an offset from another multiset's mean
            self.delta = c.choose(["above", "below", "same mean"], f"{name} mean") if moments else "same mean"
            if self.delta != "same mean":
                up = self.delta == "above"
                self.delta = c.fresh(name + ".delta", R)
                c.assume(self.delta > 0)
                c.know_nonneg(self.delta)
                self.mu = rel.mu + self.delta if up else rel.mu - self.delta
            else:
                self.mu = rel.mu
        self.case = c.choose(["varied", "constant"] if moments else ["varied"], f"{name} spread")
        if self.case == "constant":
            self.M2 = self.M3 = self.M4 = R0
            self.lo = self.hi = self.mu
        else:
            self.M2 = c.fresh(name + ".M2", R)
            self.M4 = c.fresh(name + ".M4", R)
            c.assume(z3.And(self.M2 > 0, self.M4 > 0, n >= 2) if moments else z3.And(self.M2 >= 0, self.M4 >= 0))
            if moments and c.choose(["skewed", "M3=0"], f"{name} third moment") == "M3=0":
                self.M3 = R0
            else:
                self.M3 = c.fresh(name + ".M3", R)
                if moments:
                    c.assume(self.M3 != 0)
            for a in (self.M2, self.M4):
                c.know_nonneg(a)
            self.lo = c.fresh(name + ".min", R)
            self.hi = c.fresh(name + ".max", R)
            c.assume(z3.And(self.lo <= self.mu, self.mu <= self.hi))
            if moments:
                c.assume(z3.And(self.lo < self.mu, self.mu < self.hi))
            if noise and moments:
                for m in (self.M2, self.M3, self.M4):
                    c.assume(z3.Or(m == 0, m >= NOISE, m <= -NOISE))
        for k in ("n", "mu", "M2", "M3", "M4", "lo", "hi"):
            c.inputs[f"{name}.{k}"] = getattr(self, k)

    def P(self, k):
        """power sums from central moments"""
        n, m, a, b, d = self.n, self.mu, self.M2, self.M3, self.M4
        return [n, n * m, a + n * m * m, b + 3 * m * a + n * m * m * m,
                d + 4 * m * b + 6 * m * m * a + n * m * m * m * m][k]

    def count_where(self, op, const):
        key = (op, z3.simplify(to_real(const)).sexpr())
        if key not in self.counts:
            c = Ctx.cur
            v = c.fresh(f"{self.name}.count{op}", z3.RealSort())
            c.assume(z3.And(v >= 0, v <= self.n))
            k = to_real(const)
            nonempty = self.n >= 1
            # what the count says about the extremes (a subset of the truth)
            if op == "<":
                c.assume(z3.Implies(nonempty, (v > 0) == (self.lo < k)))
            elif op == "<=":
                c.assume(z3.Implies(nonempty, (v > 0) == (self.lo <= k)))
            elif op == ">":
                c.assume(z3.Implies(nonempty, (v > 0) == (self.hi > k)))
            elif op == ">=":
                c.assume(z3.Implies(nonempty, (v > 0) == (self.hi >= k)))
            elif op == "==":
                c.assume(z3.Implies(z3.And(nonempty, z3.Or(self.lo > k, self.hi < k)), v == 0))
            self.counts[key] = v
        return self.counts[key]


class NumSeries(Sym):
    """elementwise polynomial in the elements of one Data"""
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, data, poly=None, flavour="series"):
        self.data = data
        self.poly = poly or {1: z3.RealVal(1)}
        self.flavour = flavour

    @property
    def rep_type(self):
        import pandas as pd
        return {"series": pd.Series, "ndarray": np.ndarray, "list": list}[self.flavour]

    @property
    def iloc(self):
        from .bags import bag_of
        return bag_of(self)

    def head(self, k=5):
        Ctx.cur.stop(Unsupported("head of a series"))

    def base(self):
        return list(self.poly) == [1] and z3.is_true(z3.simplify(self.poly[1] == 1))

    def _with(self, poly):
        return NumSeries(self.data, {k: v for k, v in poly.items()}, self.flavour)

    def _coerce(self, o):
        if isinstance(o, NumSeries):
            if o.data is not self.data:
                Ctx.cur.stop(Unsupported("elementwise operation on different series"))
            return o.poly
        if isinstance(o, (SymNum, int, float, np.number)):
            if isspecial(o):
                Ctx.cur.stop(Unsupported("series op with nan/inf"))
            return {0: to_real(num_expr(o))}
        return None

    def __add__(self, o):
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        r = dict(self.poly)
        for k, v in p.items():
            r[k] = r[k] + v if k in r else v
        return self._with(r)

    __radd__ = __add__

    def __neg__(self):
        return self._with({k: -v for k, v in self.poly.items()})

    def __sub__(self, o):
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        r = dict(self.poly)
        for k, v in p.items():
            r[k] = r[k] - v if k in r else -v
        return self._with(r)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        r = {}
        for k, v in self.poly.items():
            for j, w in p.items():
                r[k + j] = r[k + j] + v * w if (k + j) in r else v * w
        return self._with(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymNum, int, float, np.number)):
            return self * (1 / o)
        return NotImplemented

    def __pow__(self, k):
        if not isinstance(k, (int, np.integer)) or k < 1:
            Ctx.cur.stop(Unsupported(f"series ** {k}"))
        r = self
        for _ in range(int(k) - 1):
            r = r * self
        return r

    def _sum(self):
        acc = z3.RealVal(0)
        for k, v in self.poly.items():
            if k > 4:
                Ctx.cur.stop(Unsupported("moment above 4"))
            acc = acc + v * self.data.P(k)
        from . import algebra
        return SymNum(algebra.simplify(Ctx.cur, z3.simplify(acc)), "float", True)

    def sum(self, *a, **k):
        return self._sum()

    def mean(self):
        c = Ctx.cur
        if c.branch(self.data.n == 0, "empty series"):
            return np.float64("nan")
        return self._sum() / SymNum(self.data.n, "int")

    def var(self, ddof=1):
        return var(self, ddof)

    def std(self, ddof=1):
        from .core import sqrt
        v = var(self, ddof)
        return sqrt(v) if is_sym(v) else v

    def _need_base(self, what):
        if not self.base():
            Ctx.cur.stop(Unsupported(f"{what} of a derived series"))

    def min(self, *a, **k):
        self._need_base("min")
        c = Ctx.cur
        if c.branch(self.data.n == 0, "empty series"):
            return np.float64("nan")
        return SymNum(self.data.lo, "float", True)

    def max(self, *a, **k):
        self._need_base("max")
        c = Ctx.cur
        if c.branch(self.data.n == 0, "empty series"):
            return np.float64("nan")
        return SymNum(self.data.hi, "float", True)

    def _cmp(self, o, tag):
        self._need_base("comparison")
        if isinstance(o, (SymNum, int, float, np.number)) and not isspecial(o):
            return SymMask(z3.Int("unused"), None, None, self.data.count_where(tag, num_expr(o)))
        Ctx.cur.stop(Unsupported("series comparison"))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    __hash__ = None

    def _dv_len(self):
        return SymNum(self.data.n, "int")

    @property
    def size(self):
        return SymNum(self.data.n, "int")

    @property
    def empty(self):
        return SymBool(self.data.n == 0)

    @property
    def values(self):
        return NumSeries(self.data, self.poly, "ndarray")

    def to_numpy(self, *a, **k):
        return self.values

    def astype(self, t):
        return self

    def dropna(self):
        return self

    def replace(self, old, new):
        if all(isspecial(x) for x in (old if isinstance(old, (list, tuple)) else [old])):
            return self         # data are finite
        Ctx.cur.stop(Unsupported("replace on data"))

    def reset_index(self, drop=True):
        return self

    def copy(self, deep=True):
        return self

    def tolist(self):
        return NumSeries(self.data, self.poly, "list")

    def __deepcopy__(self, memo):
        return self

    def _dv_content(self):
        return (id(self.data),)

    def __iter__(self):
        Ctx.cur.stop(Unsupported("iteration over a statistical series"))


def var(s, ddof=0):
    """variance with divisor n - ddof (numpy default 0, pandas default 1)"""
    c = Ctx.cur
    n = s.data.n
    if c.branch(n - ddof <= 0 if ddof else n == 0, "too few elements for var"):
        return np.float64("nan")
    S1 = s._sum()
    S2 = (s * s)._sum()
    nn = SymNum(n, "int")
    from . import algebra
    m = algebra.simplify(c, S2.e - S1.e * S1.e / n)
    return SymNum(m / (n - ddof), "float", True)


CLASSES = ("int", "frac", "nan", "inf", "-inf", "text")


class Elem(Sym):
    """an arbitrary string of one parse class: what float(x) does with it"""
    rep_type = str

    def __init__(self, series, cls):
        self.series = series
        self.cls = cls
        self._v = None

    def to_float(self):
        if self.cls == "text":
            raise ValueError("could not convert string to float")
        if self.cls in ("nan", "inf", "-inf"):
            return float(self.cls)
        if self._v is None:
            c = Ctx.cur
            v = c.fresh(f"{self.series.name}.elem.{self.cls}", z3.RealSort())
            c.assume(z3.IsInt(v) if self.cls == "int" else z3.Not(z3.IsInt(v)))
            self._v = v
        return SymNum(self._v, "float", False)


def _decide(r):
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, SymBool):
        c = Ctx.cur
        if not c.feasible(z3.Not(r.e)):
            return True
        if not c.feasible(r.e):
            return False
    Ctx.cur.stop(Unsupported("row predicate not determined by the parse class"))


class RawSeries(Sym):
    """a Series of strings of unbounded length, partitioned by parse class"""

    def __init__(self, name, counts=None, root=None, finite=True, classes=CLASSES, rel=None, split=True, moments=True):
        c = Ctx.cur
        self.moments = moments
        self.rel = rel
        self.name = name
        self.root = root or self
        self.classes = classes
        if root is None:
            self.counts = {}
            for k in classes:
                if finite and k in ("nan", "inf", "-inf"):
                    continue
                if split and k not in ("text",) and c.choose(["some", "none"], f"{name} has {k} rows") == "none":
                    self.counts[k] = z3.RealVal(0)
                    continue
                v = c.fresh(f"{name}.count[{k}]", z3.RealSort())
                c.assume(v >= 1 if split and k != "text" else z3.Or(v == 0, v >= 1))
                c.know_nonneg(v)
                c.inputs[f"{name}.count[{k}]"] = v
                self.counts[k] = v
            self._datas = {}
        else:
            self.counts = counts
        n = z3.RealVal(0)
        for v in self.counts.values():
            n = n + v
        self.n = z3.simplify(n)
        self._lens = None

    @property
    def rep_type(self):
        import pandas as pd
        return pd.Series

    def _dv_len(self):
        return SymNum(self.n, "int")

    @property
    def size(self):
        return SymNum(self.n, "int")

    @property
    def shape(self):
        return (SymNum(self.n, "int"),)

    @property
    def empty(self):
        return SymBool(self.n == 0)

    def reset_index(self, drop=True):
        return self

    def copy(self, deep=True):
        return self

    def __deepcopy__(self, memo):
        return self

    def _dv_content(self):
        return (self.name,)

    def mask_of(self, f):
        if Ctx.cur.branch(self.n == 0, f"{self.name} empty"):
            keep = ()
        else:
            keep = tuple(k for k in self.counts if _decide(f(Elem(self, k))))
        cnt = z3.RealVal(0)
        for k in keep:
            cnt = cnt + self.counts[k]
        m = SymMask(z3.Int("unused"), None, None, z3.simplify(cnt))
        m.key = keep
        m.length = self.n
        m._dv_len = lambda: SymNum(self.n, "int")
        return m

    def map(self, f):
        return self.mask_of(f)

    apply = map

    def _dv_map(self, f):
        return self.mask_of(f)

    def _dv_comp(self, kind, elt, cond):
        """[pred(x) for x in series]"""
        if cond is not None:
            Ctx.cur.stop(Unsupported("filtered comprehension over a raw series"))
        return self.mask_of(elt)

    def __getitem__(self, m):
        if isinstance(m, SymMask) and getattr(m, "key", None) is not None:
            return self.sub(m.key)
        Ctx.cur.stop(Unsupported("raw series indexing"))

    @property
    def loc(self):
        return self

    def sub(self, keep):
        keep = tuple(k for k in self.counts if k in keep)
        if keep == tuple(self.counts):
            return self
        return RawSeries(f"{self.name}[{'|'.join(keep)}]", {k: self.counts[k] for k in keep}, self.root)

    def numeric(self):
        key = tuple(self.counts)
        if key not in self.root._datas:
            if "text" in key:
                raise ValueError("could not convert string to float")
            self.root._datas[key] = Data(f"{self.root.name}<{'|'.join(key)}>", n=self.n,
                                              rel=self.root.rel, moments=self.root.moments)
        return self.root._datas[key]

    def astype(self, t):
        if t in (float, "float", np.float64):
            if any(k in self.counts for k in ("nan", "inf", "-inf")):
                Ctx.cur.stop(Unsupported("statistics of non-finite data"))
            return NumSeries(self.numeric())
        Ctx.cur.stop(Unsupported(f"raw astype {t}"))

    def lens(self):
        if self._lens is None:
            self._lens = Data(self.name + ".lengths", n=self.n, rel=self.root.rel, moments=self.root.moments)
            Ctx.cur.assume(z3.Implies(self.n >= 1, self._lens.lo >= 0))
        return self._lens

    @property
    def str(self):
        outer = self

        class _S:
            def len(self_):
                return NumSeries(outer.lens())
        return _S()


class Union:
    """disjoint union of two multisets, from power sums only"""

    def __init__(self, a, b):
        self.name = f"({a.name}+{b.name})"
        self.parts = (a, b)
        self.n = a.n + b.n
        n = self.n
        S1, S2, S3, S4 = (a.P(k) + b.P(k) for k in (1, 2, 3, 4))
        self.mu = S1 / n
        m = self.mu
        # definitions of the central moment sums from the power sums, simplified
        self.M2 = S2 - n * m * m
        self.M3 = S3 - 3 * m * S2 + 3 * m * m * S1 - n * m * m * m
        self.M4 = S4 - 4 * m * S3 + 6 * m * m * S2 - 4 * m * m * m * S1 + n * m * m * m * m
        self.case = "varied"
        self.lo = z3.If(a.lo <= b.lo, a.lo, b.lo)
        self.hi = z3.If(a.hi >= b.hi, a.hi, b.hi)
        # lemma (machine-checked below, poly normal form): M2 has the pairwise form;
        # replacing the definition by it keeps z3's job linear in the M2 terms
        c = Ctx.cur
        d = getattr(b, "delta", None)
        d = d if z3.is_expr(d) else b.mu - a.mu
        pair = a.M2 + b.M2 + d * d * a.n * b.n / n
        from . import algebra
        ok, why = algebra.equal(c, self.M2, pair)
        assert ok, why
        self.M2 = pair

    def P(self, k):
        return self.parts[0].P(k) + self.parts[1].P(k)

    def count_where(self, op, const):
        return self.parts[0].count_where(op, const) + self.parts[1].count_where(op, const)


def union(a, b):
    c = Ctx.cur
    if c.branch(a.n == 0, f"{a.name} empty"):
        return b
    if c.branch(b.n == 0, f"{b.name} empty"):
        return a
    return Union(a, b)

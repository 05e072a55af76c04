"""Finite multisets of reals described by size, minimum and maximum (the data a
histogram is made of), and lists of such multisets."""
from __future__ import annotations

import z3
import numpy as np

from .core import Ctx, Sym, SymBool, SymNum, Unsupported, is_sym, isspecial, num_expr, to_real, sround
from .arrays import SymArray, fresh_array, T, F, _I

R0 = z3.RealVal(0)


class Bag(Sym):
    """n >= 0 reals; lo/hi are attained when n > 0"""
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, n, lo, hi, flavour="list"):
        self.n, self.lo, self.hi, self.flavour = n, lo, hi, flavour

    @property
    def rep_type(self):
        import pandas as pd
        return {"series": pd.Series, "ndarray": np.ndarray, "list": list}[self.flavour]

    def _dv_len(self):
        return SymNum(self.n, "int")

    def as_(self, f):
        return Bag(self.n, self.lo, self.hi, f)

    def tolist(self):
        return self.as_("list")

    @property
    def values(self):
        return self.as_("ndarray")

    def to_numpy(self, *a, **k):
        return self.as_("ndarray")

    def copy(self, *a, **k):
        return self

    def astype(self, t):
        return self

    def replace(self, old, new):
        # data are finite: replacing infinities changes nothing
        if all(isspecial(x) for x in (old if isinstance(old, list) else [old])):
            return self
        Ctx.cur.stop(Unsupported("replace on data"))

    def dropna(self):
        return self

    @property
    def empty(self):
        return SymBool(self.n == 0)

    @property
    def size(self):
        return self._dv_len()

    def reset_index(self, *a, **k):
        return self

    def __getitem__(self, k):
        c = Ctx.cur
        if not isinstance(k, (int, np.integer, SymNum)):
            c.stop(Unsupported("indexing data"))
        if c.branch(self.n == 0, "no data"):
            raise IndexError("index out of range")
        v = c.fresh("element", z3.RealSort())
        c.assume(z3.And(self.lo <= v, v <= self.hi))
        return SymNum(v, "float", True)

    @property
    def iloc(self):
        return self

    def min(self):
        return SymNum(self.lo, "float", True)

    def max(self):
        return SymNum(self.hi, "float", True)

    def __deepcopy__(self, memo):
        return self


def rep(xs, k):
    """[v, ...] * k"""
    c = Ctx.cur
    if not xs:
        return xs
    if len(xs) != 1:
        c.stop(Unsupported("replicated list of several elements"))
    v = to_real(num_expr(xs[0]))
    n = to_real(num_expr(k))
    if isinstance(k, SymNum) and k.kind != "int":
        raise TypeError("can't multiply sequence by non-int of type 'float'")
    if isinstance(k, SymNum) and k.e.sort() == z3.IntSort():
        return RepList(xs[0], z3.If(k.e > 0, k.e, z3.IntVal(0)))
    return Bag(z3.If(n > 0, n, R0), v, v)


class RepList(SymArray):
    """[v] * k"""

    def __init__(self, v, n):
        e = num_expr(v)
        SymArray.__init__(self, z3.simplify(n), lambda i: e, "int" if e.sort() == z3.IntSort() else "float",
                          z3.ToReal(n) * to_real(e), z3.simplify(e >= 0), T if e.sort() == z3.IntSort() else F, T, "list", "replicated")
        self.value = to_real(e)

    def __setitem__(self, k, v):
        self.value = None
        SymArray.__setitem__(self, k, v)


def bag_of(x):
    if isinstance(x, RepList) and x.value is not None:
        return Bag(z3.ToReal(x.n), x.value, x.value)
    if isinstance(x, Bag):
        return x
    if isinstance(x, BagList):
        return x.union()
    if hasattr(x, "data") and hasattr(x, "poly"):
        if not x.base():
            Ctx.cur.stop(Unsupported("derived series as data"))
        return Bag(x.data.n, x.data.lo, x.data.hi)
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        if not x:
            return Bag(R0, R0, R0)
        vs = [to_real(num_expr(v)) for v in x]
        lo = hi = vs[0]
        for v in vs[1:]:
            lo, hi = z3.If(v < lo, v, lo), z3.If(v > hi, v, hi)
        return Bag(z3.RealVal(len(vs)), lo, hi)
    Ctx.cur.stop(Unsupported(f"data from {type(x).__name__}"))


def union2(a, b):
    c = Ctx.cur
    n = z3.simplify(a.n + b.n)
    lo, hi = c.fresh("union.lo", z3.RealSort()), c.fresh("union.hi", z3.RealSort())
    for v, x, y, better in ((lo, a.lo, b.lo, lambda p, q: p <= q), (hi, a.hi, b.hi, lambda p, q: p >= q)):
        c.assume(z3.Implies(a.n > 0, better(v, x)))
        c.assume(z3.Implies(b.n > 0, better(v, y)))
        c.assume(z3.Implies(n > 0, z3.Or(z3.And(a.n > 0, v == x), z3.And(b.n > 0, v == y))))
    return Bag(n, lo, hi)


class BagList(Sym):
    """a list with one multiset per selected index, then further pieces"""
    rep_type = list

    def __init__(self, head, tail=()):
        self.head, self.tail = head, list(tail)

    def __add__(self, o):
        if isinstance(o, list):
            return BagList(self.head, self.tail + o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return BagList(self.head, o + self.tail)
        return NotImplemented

    def __bool__(self):
        if self.tail:
            return True
        return Ctx.cur.branch(self.head.k > 0, "some bin selected")

    def _dv_len(self):
        return SymNum(self.head.k + len(self.tail), "int")

    def union(self):
        b = self.head.bag
        for t in self.tail:
            b = union2(b, bag_of(t))
        return b

    def __deepcopy__(self, memo):
        return self


class Head:
    def __init__(self, k, bag):
        self.k, self.bag = k, bag


class Selection(Sym):
    """arr[mask]: the elements of arr at the indices where mask holds"""
    __array_ufunc__ = None
    rep_type = np.ndarray

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def _dv_iter(self):
        from .loops import SymIter
        k = self.mask._count()
        return SymIter(SymNum(k, "int"), lambda i: self.arr.at(i), self)

    def _dv_comp(self, kind, elt, cond):
        return comp_selected([self], kind, elt, cond, lambda xs: xs[0])

    def _dv_len(self):
        return SymNum(self.mask._count(), "int")

    def astype(self, t):
        return Selection(self.arr.astype(t), self.mask)

    def __deepcopy__(self, memo):
        return self


def comp_selected(sels, kind, elt, cond, pack):
    """[elt(x...) for x... in zip(selections)] where elt yields a multiset"""
    c = Ctx.cur
    if cond is not None or kind not in ("list", "gen"):
        c.stop(Unsupported("filtered comprehension over a selection"))
    mask = sels[0].mask
    for s in sels[1:]:
        if s.mask is not mask:
            c.stop(Unsupported("zip of different selections"))
    I = z3.IntSort()
    cnt = mask._count()
    if c.check(mask.n > 0)[0] == z3.unsat:
        return []

    def piece(j):
        return bag_of(elt(pack([s.arr.at(j) for s in sels])))

    def skolem(nm):
        j = c.fresh(nm, I)
        c.assume(z3.Implies(cnt > 0, z3.And(j >= 0, j < mask.n, mask._at(j))))
        return j
    # total length: the lengths agree with an array whose prefix sums are known
    j = skolem("gen")
    b = piece(j)
    size = None
    for s in sels:
        if s.arr.total is None:
            continue
        v = to_real(s.arr.at(j).e)
        r1, _ = c.check(cnt > 0, b.n != v)
        j2 = c.fresh("unsel", I)
        v2 = to_real(s.arr.at(j2).e)
        r2, _ = c.check(j2 >= 0, j2 < mask.n, z3.Not(mask._at(j2)), v2 != 0)
        if r1 == z3.unsat and r2 == z3.unsat:
            size = s.arr.total
            break
    if size is None:
        c.stop(Unsupported("length of a list of lists"))
    c.assume(z3.Implies(cnt == 0, size == 0))       # nothing selected: all elements are zero
    lo, hi = c.fresh("pieces.lo", z3.RealSort()), c.fresh("pieces.hi", z3.RealSort())
    jl, jh = skolem("argmin"), skolem("argmax")
    bl, bh = piece(jl), piece(jh)
    c.assume(z3.Implies(cnt > 0, z3.And(lo == bl.lo, hi == bh.hi, bl.n > 0, bh.n > 0)))
    for idx in (z3.IntVal(0), mask.n - 1):
        sel = z3.And(idx >= 0, idx < mask.n, mask._at(idx))
        if c.branch(sel, "end bin selected"):
            p = piece(idx)
            c.assume(z3.Implies(p.n > 0, z3.And(lo <= p.lo, hi >= p.hi)))
            c.assume(z3.And(cnt > 0))
    return BagList(Head(cnt, Bag(size, lo, hi)))


# ---------------------------------------------------------------- numpy contracts
def np_concatenate(parts, *a, **k):
    if isinstance(parts, BagList):
        return parts.union().as_("ndarray")
    out = None
    for p in parts:
        b = bag_of(p)
        out = b if out is None else union2(out, b)
    return out.as_("ndarray")


class _Unique(Sym):
    rep_type = np.ndarray

    def __init__(self, k):
        self.k = k

    def _dv_len(self):
        return SymNum(self.k, "int")

    @property
    def size(self):
        return SymNum(self.k, "int")


def np_unique(x):
    c = Ctx.cur
    b = bag_of(x)
    k = c.fresh("distinct", z3.IntSort())
    c.assume(z3.And(k >= 0, (k == 0) == (b.n == 0), z3.Implies(b.n > 0, (k == 1) == (b.lo == b.hi)), k <= b.n))
    return _Unique(k)


def np_histogram(x, bins=10, range=None, weights=None):
    """np.histogram on finite data: counts of all values, ascending edges from min to max"""
    c = Ctx.cur
    if range is not None or weights is not None:
        c.stop(Unsupported("np.histogram with range/weights"))
    b = bag_of(x)
    if not isinstance(bins, (int, np.integer, SymNum)):
        c.stop(Unsupported("np.histogram bins"))
    k = _I(bins)
    if not c.branch(k >= 1, "bins positive"):
        raise ValueError("`bins` must be positive, when an integer")
    if c.branch(b.n == 0, "histogram of nothing"):
        c.stop(Unsupported("histogram of no data"))
    counts = fresh_array("np.histogram", k, "float", nonneg=True, integral=True, with_sum=True, inp=False)
    edges = fresh_array("np.histogram.edges", k + 1, "float", asc=True, inp=False)
    c.assume(counts.total == b.n)
    e0, e1 = edges.at(z3.IntVal(0)).e, edges.at(k).e
    c.assume(z3.Implies(b.lo < b.hi, z3.And(e0 == b.lo, e1 == b.hi)))
    c.assume(z3.And(e0 <= b.lo, b.hi <= e1))
    # the extreme values are counted in the end bins
    c.assume(z3.Implies(b.lo < b.hi, z3.And(counts.at(z3.IntVal(0)).e >= 1, counts.at(k - 1).e >= 1)))
    return counts, edges


def np_array(x, *a, **k):
    c = Ctx.cur
    if type(x).__name__ == "SymRange":
        a0, st = _I(x.a), _I(x.st)
        return SymArray(x._dv_count(), lambda i: a0 + i * st, "int", name="range")
    if isinstance(x, (Bag, BagList)):
        return bag_of(x).as_("ndarray")
    if hasattr(x, "poly"):
        return bag_of(x).as_("ndarray")
    if isinstance(x, SymArray):
        r = x.copy()
        r.flavour = "ndarray"
        return r
    if isinstance(x, (list, tuple)):
        return from_list(x)
    c.stop(Unsupported(f"np.array of {type(x).__name__}"))


def from_list(xs, flavour="ndarray"):
    """concrete length, symbolic entries"""
    vs = [to_real(num_expr(v)) for v in xs]
    ints = all((isinstance(v, SymNum) and v.kind == "int") or isinstance(v, (int, np.integer)) for v in xs)

    def at(i):
        e = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            e = z3.If(i == k, vs[k], e)
        return e
    tot = z3.RealVal(0)
    for v in vs:
        tot = tot + v
    asc = z3.And(*[a <= b for a, b in zip(vs, vs[1:])]) if len(vs) > 1 else T
    return SymArray(len(vs), at, "float", tot, z3.simplify(z3.And(*[v >= 0 for v in vs])) if vs else T,
                    T if ints else F, z3.simplify(asc), flavour, "literal")


def np_repeat(x, k):
    if isinstance(x, (Selection,)) and isinstance(k, Selection):
        return comp_selected([x, k], "list", lambda t: rep([t[0]], SymNum(t[1].e, "int", True)), None, tuple).union()
    if isinstance(x, SymArray) and isinstance(k, SymArray):
        from .arrays import SymMask
        m = SymMask(x.n, lambda i: T, None, x.n)
        return comp_selected([Selection(x, m), Selection(k, m)], "list", lambda t: rep([t[0]], SymNum(t[1].e, "int", True)),
                             None, tuple).union()
    if isinstance(x, (SymNum, int, float, np.number)):
        return rep([x], k).as_("ndarray")
    Ctx.cur.stop(Unsupported("np.repeat"))


def np_full(n, v, **k):
    if isinstance(n, tuple):
        n = n[0]
    return rep([v], n).as_("ndarray")


def round_bag(b):
    c = Ctx.cur
    lo, hi = (sround(SymNum(e, "float", True)) for e in (b.lo, b.hi))
    le, he = (to_real(num_expr(v)) for v in (lo, hi))
    c.assume(le <= he)
    for w in getattr(c, "wholes", ()):      # rounding is monotone and fixes whole numbers
        c.assume(z3.And(z3.Implies(w <= b.lo, w <= le), z3.Implies(b.hi <= w, he <= w)))
    return Bag(b.n, le, he, b.flavour)


MODELS = dict(concatenate=np_concatenate, unique=np_unique, histogram=np_histogram, array=np_array, asarray=np_array,
              repeat=np_repeat, full=np_full)

"""Dictionaries with unboundedly many symbolic integer keys, random generators and recorded output sequences."""
from __future__ import annotations

import z3

from .core import Ctx, Sym, SymBool, SymNum, Unsupported, is_sym, num_expr
from .arrays import SymArray, T, F, _I

I = z3.IntSort()


def _int(k):
    if isinstance(k, SymNum):
        if k.e.sort() != I:
            Ctx.cur.stop(Unsupported("non-integer key"))
        return k.e
    if isinstance(k, int):
        return z3.IntVal(k)
    try:
        return z3.IntVal(int(k))
    except (TypeError, ValueError):
        Ctx.cur.stop(Unsupported("key of a symbolic dictionary"))


class SymDict(Sym):
    """dict from integers to integers; `__missing__` of the real class supplies absent keys"""
    rep_type = dict

    def __init__(self, *a, **k):
        if a or k:
            Ctx.cur.stop(Unsupported("initialised dictionary"))
        self.has = z3.K(I, F)
        # total view (an absent key stands for itself); doubles as the value store
        self.val = Ctx.cur.fresh("dict", z3.ArraySort(I, I))
        p = z3.Int("p!")
        Ctx.cur.assume(z3.ForAll([p], z3.Select(self.val, p) == p, patterns=[z3.Select(self.val, p)]))

    def _absent(self, e):
        Ctx.cur.assume(z3.Select(self.val, e) == e)

    def __getitem__(self, k):
        c = Ctx.cur
        e = _int(k)
        if c.branch(z3.Select(self.has, e), "key present"):
            return SymNum(z3.Select(self.val, e), "int")
        self._absent(e)
        m = getattr(type(self), "__missing__", None)
        if m is None:
            raise KeyError(k)
        return m(self, k)

    def get(self, k, d=None):
        e = _int(k)
        if Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            return SymNum(z3.Select(self.val, e), "int")
        self._absent(e)
        return d

    def __setitem__(self, k, v):
        e = _int(k)
        self.has = z3.Store(self.has, e, T)
        self.val = z3.Store(self.val, e, _int(v))

    def __contains__(self, k):
        e = _int(k)
        if Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            return True
        self._absent(e)
        return False

    def total(self, i):
        return z3.Select(self.val, i)

    def _dv_content(self):
        return (self.has.get_id(), self.val.get_id())

    def _dv_freeze(self):
        d = SymDict.__new__(SymDict)
        d.has, d.val = self.has, self.val
        return d

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.has = c.fresh(path + ".has", z3.ArraySort(I, z3.BoolSort()))
        self.val = c.fresh(path + ".val", z3.ArraySort(I, I))

    def __deepcopy__(self, memo):
        return self


def rebase(cls):
    """the real dict subclass on top of SymDict"""
    ns = {k: v for k, v in cls.__dict__.items() if k not in ("__dict__", "__weakref__", "__module__", "__doc__")}
    return type(cls.__name__, (SymDict,), ns)


class Seq(Sym):
    """ghost: the concatenation of what a generator has produced so far"""

    def __init__(self):
        self.n = z3.IntVal(0)
        self.arr = z3.K(I, z3.IntVal(-1))

    def _dv_content(self):
        return (self.n.get_id(), self.arr.get_id())

    def _dv_freeze(self):
        s = Seq()
        s.n, s.arr = self.n, self.arr
        return s

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.n = c.fresh("produced", I)
        self.arr = c.fresh("produced.at", z3.ArraySort(I, I))

    def extend(self, chunk):
        """ghost append of a symbolic list"""
        c = Ctx.cur
        new = c.fresh("produced.at", z3.ArraySort(I, I))
        p = z3.Int("p!")
        old, n0, m = self.arr, self.n, chunk.n
        c.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n0), z3.Select(new, p) == z3.Select(old, p)),
                           patterns=[z3.Select(new, p)]))
        c.assume(z3.ForAll([p], z3.Implies(z3.And(n0 <= p, p < n0 + m), z3.Select(new, p) == chunk._at(p - n0)),
                           patterns=[z3.Select(new, p)]))
        self.arr, self.n = new, z3.simplify(n0 + m)

    def __deepcopy__(self, memo):
        return self


class SymRng:
    """numpy random Generator by contract"""

    def integers(self, low, high=None, size=None, **k):
        c = Ctx.cur
        if high is None:
            low, high = 0, low
        h = num_expr(high)
        if isinstance(low, SymArray):
            f = c.fresh("random", z3.ArraySort(I, I))
            lo = low

            def at(i):
                v = z3.Select(f, i)
                c.assume(z3.Implies(z3.And(i >= 0, i < lo.n), z3.And(_I(lo._at(i)) <= v, v < h)))
                return v
            j = c.fresh("anyrow", I)
            c.prove("random generator precondition: low < high for every entry",
                    z3.Implies(z3.And(j >= 0, j < lo.n), _I(lo._at(j)) < h))
            return SymArray(lo.n, at, "int", name="random")
        if size is not None:
            c.stop(Unsupported("sized random integers"))
        v = c.fresh("random", I)
        le = num_expr(low)
        c.prove("random generator precondition: low < high", le < h)
        c.assume(z3.And(le <= v, v < h))
        return SymNum(v, "int", True)

    def permutation(self, n):
        c = Ctx.cur
        f = c.fresh("permutation", z3.ArraySort(I, I))
        ne = num_expr(n)
        p, q = z3.Ints("p! q!")
        c.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ne), z3.And(0 <= z3.Select(f, p), z3.Select(f, p) < ne)),
                           patterns=[z3.Select(f, p)]))
        c.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < ne), z3.Select(f, p) != z3.Select(f, q)),
                           patterns=[z3.MultiPattern(z3.Select(f, p), z3.Select(f, q))]))
        return SymArray(ne, lambda i: z3.Select(f, i), "int", name="permutation")

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        Ctx.cur.stop(Unsupported(f"random generator method {n}"))

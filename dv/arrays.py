"""Symbolic sequences of unbounded length: numpy arrays, lists, pandas Series.

A SymArray is a length and an index->term closure plus ghost facts:
  total     sum of the elements
  nonneg    all elements >= 0
  integral  all elements are integers
  asc       elements are non-decreasing
Reads instantiate the facts at the index read (quantifier-free); writes update
the ghosts.  Each operation below is an assumed contract on numpy/pandas.
"""
from __future__ import annotations

import z3
import numpy as np

from .core import (Ctx, Sym, SymBool, SymNum, SymStr, Unsupported, as_bool_expr, is_sym, isspecial, ite,
                   lit, num_expr, to_real)
from .loops import SymIter

T, F = z3.BoolVal(True), z3.BoolVal(False)


def _I(x):
    return x.e if isinstance(x, SymNum) else (x if z3.is_expr(x) else z3.IntVal(int(x)))


def _len_num(e):
    return SymNum(e, "int")


def whole(e):
    """a sufficient condition for e being an integer, split over sums"""
    if e.sort() == z3.IntSort():
        return T
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_TO_REAL:
        return T
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return z3.And(*[whole(c) for c in e.children()])
    if k == z3.Z3_OP_ITE:
        return z3.And(z3.Implies(e.arg(0), whole(e.arg(1))), z3.Implies(z3.Not(e.arg(0)), whole(e.arg(2))))
    return z3.IsInt(e)


class SymArray(Sym):
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, n, at, kind="float", total=None, nonneg=F, integral=F, asc=F, flavour="ndarray",
                 name="arr", psum=None, npy=True):
        self.n = _I(n)
        self._at = at
        self.kind = kind
        self.total = total
        self.nonneg = nonneg
        self.integral = integral
        self.asc = asc
        self.flavour = flavour
        self.name = name
        self.psum = psum          # z3 function Int->Real with psum(i)=sum of first i
        self.reads = []
        self.version = 0
        self.view = False
        self.npy = npy

    # ------------------------------------------------------------- typing
    @property
    def rep_type(self):
        import pandas as pd
        return {"ndarray": np.ndarray, "list": list, "series": pd.Series, "tuple": tuple}[self.flavour]

    # ------------------------------------------------------------- frames
    def _dv_content(self):
        return (id(self._at), self.n.get_id(), self.total.get_id() if self.total is not None else None)

    def _dv_freeze(self):
        a = SymArray(self.n, self._at, self.kind, self.total, self.nonneg, self.integral, self.asc, self.flavour,
                     self.name + "@entry", self.psum)
        return a

    def _dv_fresh(self, base):
        return self._mk_havoc(base)

    def _mk_havoc(self, base):
        c = Ctx.cur
        f = c.fresh(base + ".arr", z3.ArraySort(z3.IntSort(), z3.RealSort() if self.kind == "float" else z3.IntSort()))
        a = SymArray(self.n, lambda i: z3.Select(f, i), self.kind, c.fresh(base + ".total", z3.RealSort()),
                     c.fresh(base + ".nonneg", z3.BoolSort()), c.fresh(base + ".integral", z3.BoolSort()),
                     c.fresh(base + ".asc", z3.BoolSort()), self.flavour, base)
        return a

    def _dv_havoc(self, loop, path):
        a = self._mk_havoc(f"{loop.site.split(':')[1]}.{path}")
        self._at, self.total, self.nonneg, self.integral, self.asc = a._at, a.total, a.nonneg, a.integral, a.asc
        self.psum = None
        self.reads = []

    def _dv_candidates(self, entry, i, loop):
        out = [("nonneg", self.nonneg), ("integral", self.integral), ("asc", self.asc)]
        if self.total is not None and entry.total is not None:
            out.append(("total==entry", self.total == entry.total))
            if loop.seq is not None and isinstance(loop.seq.src, SymArray) and loop.seq.src.psum is not None:
                out.append(("total==entry+prefix", self.total == entry.total + loop.seq.src.psum(_I(i))))
        return out

    # ------------------------------------------------------------- reads
    def at(self, i):
        i = _I(i)
        v = self._at(i)
        c = Ctx.cur
        rng = z3.And(i >= 0, i < self.n)
        facts = []
        if not z3.is_false(self.nonneg):
            facts.append(z3.Implies(z3.And(rng, self.nonneg), v >= 0))
        if self.kind == "float" and not z3.is_false(self.integral):
            facts.append(z3.Implies(z3.And(rng, self.integral), z3.IsInt(v)))
        if not z3.is_false(self.asc):
            for j in self.reads:
                if j.eq(i):
                    continue
                vj = self._at(j)
                both = z3.And(self.asc, rng, j >= 0, j < self.n)
                facts.append(z3.Implies(z3.And(both, j <= i), vj <= v))
                facts.append(z3.Implies(z3.And(both, i <= j), v <= vj))
        if self.psum is not None:
            facts.append(z3.Implies(rng, self.psum(i + 1) == self.psum(i) + to_real(v)))
            facts.append(self.psum(z3.IntVal(0)) == 0)
            if self.total is not None:
                facts.append(self.psum(self.n) == self.total)
        if not any(i.eq(j) for j in self.reads):
            self.reads.append(i)
        for f in facts:
            f = z3.simplify(f)
            if not z3.is_true(f):
                c.assume(f)
        return SymNum(v, self.kind, self.npy and self.flavour != "list")

    def _norm(self, k):
        """python index -> in-range z3 index, or IndexError"""
        c = Ctx.cur
        if isinstance(k, (int, np.integer)):
            k = int(k)
            e = z3.IntVal(k) if k >= 0 else self.n + k
        else:
            e = _I(k)
            if e.sort() != z3.IntSort():
                c.stop(Unsupported("non-integer index"))
            if c.branch(e < 0, "negative index"):
                e = e + self.n
        if not c.branch(z3.And(e >= 0, e < self.n), "index in range"):
            raise IndexError("index out of range")
        return e

    def __getitem__(self, k):
        c = Ctx.cur
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                if k.step == -1 and k.start is None and k.stop is None:
                    n = self.n
                    return self._derive(n, lambda i: self._at(n - 1 - i), total=self.total, nonneg=self.nonneg,
                                        integral=self.integral)
                c.stop(Unsupported("slice step"))
            lo, hi = self._clip(k.start, z3.IntVal(0)), self._clip(k.stop, self.n)
            m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            tot = None
            if self.psum is not None:
                tot = z3.If(hi > lo, self.psum(hi) - self.psum(lo), z3.RealVal(0))
            elif z3.is_true(z3.simplify(z3.And(lo == 0, hi == self.n))):
                tot = self.total
            parent = self
            r = self._derive(m, None, total=tot, nonneg=self.nonneg, integral=self.integral, asc=self.asc)
            r._at = lambda i: parent._at(i + lo)
            r.at = lambda i: parent.at(_I(i) + lo)      # facts of the parent apply
            r.view = self.flavour == "ndarray"
            return r
        if isinstance(k, (int, np.integer, SymNum)):
            return self.at(self._norm(k))
        if isinstance(k, SymMask):
            return self.filter(k)
        c.stop(Unsupported(f"index of type {type(k).__name__}"))

    def _clip(self, x, default):
        if x is None:
            return default
        e = _I(x)
        if isinstance(x, (int, np.integer)):
            e = z3.IntVal(int(x)) if x >= 0 else self.n + int(x)
        else:
            e = z3.If(e < 0, e + self.n, e)
        e = z3.If(e < 0, z3.IntVal(0), z3.If(e > self.n, self.n, e))
        return z3.simplify(e)

    def _derive(self, n, at, **kw):
        kw.setdefault("flavour", self.flavour)
        kw.setdefault("kind", self.kind)
        return SymArray(n, at, name=self.name + "'", **kw)

    # ------------------------------------------------------------- writes
    def __setitem__(self, k, v):
        c = Ctx.cur
        if self.view:
            c.stop(Unsupported("write through a view"))
        if isinstance(k, (int, np.integer, SymNum)):
            e = self._norm(k)
            old = self.at(e)
            ve = num_expr(v)
            if self.kind == "float":
                ve = to_real(ve)
            elif ve.sort() == z3.RealSort():
                c.stop(Unsupported("real stored into int array"))
            prev = self._at
            self._at = lambda i: z3.If(i == e, ve, prev(i))
            if self.total is not None:
                self.total = self.total + to_real(ve) - to_real(old.e)
            self.nonneg = z3.simplify(z3.And(self.nonneg, ve >= 0))
            self.integral = z3.simplify(z3.And(self.integral, whole(ve)))
            self.asc = F
            self.psum = None
            self.reads = []
            self.version += 1
            return
        c.stop(Unsupported("array store with a non-scalar index"))

    # ------------------------------------------------------------- elementwise
    def _bin(self, o, f, lin=None, kind=None):
        c = Ctx.cur
        a = self
        if isinstance(o, SymArray):
            if not c.branch(a.n == o.n, "shapes equal"):
                raise ValueError("operands could not be broadcast together")
            return self._derive(a.n, lambda i: f(to_real(a._at(i)), to_real(o._at(i))), kind="float",
                                total=lin(a.total, o.total, a.n) if lin and a.total is not None and o.total is not None else None)
        if isinstance(o, (SymNum, int, float, np.number)):
            if isspecial(o):
                c.stop(Unsupported("array op with nan/inf"))
            oe = to_real(num_expr(o))
            return self._derive(a.n, lambda i: f(to_real(a._at(i)), oe), kind="float",
                                total=lin(a.total, oe * z3.ToReal(a.n), a.n) if lin and a.total is not None else None)
        return NotImplemented

    def __add__(self, o):
        if self.flavour == "list":
            return concat([self, o])
        return self._bin(o, lambda x, y: x + y, lambda s, t, n: s + t)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y, lambda s, t, n: s - t)

    def __mul__(self, o):
        r = self._bin(o, lambda x, y: x * y)
        if isinstance(o, (SymNum, int, float, np.number)) and self.total is not None and r is not NotImplemented:
            r.total = self.total * to_real(num_expr(o))
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = Ctx.cur
        if isinstance(o, (SymNum, int, float, np.number)) and not isspecial(o):
            oe = to_real(num_expr(o))
            if c.branch(oe == 0, "array divided by zero"):
                c.stop(Unsupported("array / 0"))
            r = self._derive(self.n, lambda i: to_real(self._at(i)) / oe, kind="float")
            if self.total is not None:
                r.total = self.total / oe
            pos = z3.And(self.nonneg, oe > 0)
            r.nonneg = z3.simplify(pos)
            r.asc = z3.simplify(z3.And(self.asc, oe > 0))
            return r
        return self._bin(o, lambda x, y: x / y)

    def _cmp(self, o, f, tag):
        c = Ctx.cur
        if isinstance(o, (SymNum, int, float, np.number)) and not isspecial(o):
            oe = num_expr(o)
            return SymMask(self.n, lambda i: f(self._at(i), oe), (self, tag, oe))
        if isinstance(o, SymArray):
            return SymMask(self.n, lambda i: f(self._at(i), o._at(i)), None)
        c.stop(Unsupported(f"array comparison with {type(o).__name__}"))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "==")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, "!=")

    __hash__ = None

    def __bool__(self):
        c = Ctx.cur
        if self.flavour in ("list", "tuple"):
            return c.branch(self.n > 0, "non-empty list")
        c.stop(Unsupported("truth value of an array"))

    # ------------------------------------------------------------- protocol
    def _dv_len(self):
        return SymNum(self.n, "int")

    def __len__(self):
        s = z3.simplify(self.n)
        if z3.is_int_value(s):
            return s.as_long()
        Ctx.cur.stop(Unsupported("native len() of a symbolic array"))

    def _dv_iter(self):
        return SymIter(SymNum(self.n, "int"), lambda i: self.at(i), self)

    def __iter__(self):
        Ctx.cur.stop(Unsupported("native iteration over a symbolic array"))

    def sum(self, axis=None):
        if self.total is None:
            Ctx.cur.stop(Unsupported("sum without ghost total"))
        return SymNum(self.total, self.kind if self.kind == "float" else "int", True)

    def copy(self, deep=True):
        a = self._dv_freeze()
        a.name = self.name + ".copy"
        a.reads = []
        return a

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def astype(self, t):
        a = self.copy()
        if t in (float, "float", np.float64):
            if self.kind == "int":
                at = self._at
                a._at = lambda i: z3.ToReal(at(i))
                a.kind = "float"
                a.integral = T
            return a
        if t in (int, "int", np.int64):
            if self.kind == "int":
                return a
        Ctx.cur.stop(Unsupported(f"astype({t})"))

    def tolist(self):
        a = self.copy()
        a.flavour = "list"
        return a

    @property
    def shape(self):
        return (SymNum(self.n, "int"),)

    @property
    def size(self):
        return SymNum(self.n, "int")

    @property
    def ndim(self):
        return 1

    def reshape(self, *a):
        return self

    def filter(self, mask):
        from .bags import Selection
        if not Ctx.cur.branch(mask.n == self.n, "mask length"):
            raise IndexError("boolean index did not match indexed array")
        return Selection(self, mask)

    def _dv_concretise(self, m):
        n = m.eval(self.n, model_completion=True).as_long()
        from .core import from_z3
        return [from_z3(m.eval(self._at(z3.IntVal(i)), model_completion=True)) for i in range(min(n, 12))]

    def __repr__(self):
        return f"SymArray({self.name})"


class SymMask(Sym):
    __array_ufunc__ = None
    __array_priority__ = 1e9
    rep_type = np.ndarray

    def __init__(self, n, at, origin=None, count=None):
        self.n = _I(n)
        self._at = at
        self.origin = origin
        self.count = count

    def _count(self):
        if self.count is None:
            o = self.origin
            if o is not None and hasattr(o[0], "count_where"):
                self.count = o[0].count_where(o[1], o[2])
            else:
                c = Ctx.cur
                self.count = c.fresh("maskcount", z3.IntSort())
                c.assume(z3.And(self.count >= 0, self.count <= self.n))
        return self.count

    def sum(self, *a, **k):
        return SymNum(self._count(), "int", True)

    def _dv_len(self):
        return SymNum(self.n, "int")

    def any(self):
        return SymBool(self._count() > 0)

    def all(self):
        return SymBool(self._count() == self.n)

    def astype(self, t):
        return self

    def __invert__(self):
        cnt = self._count()
        m = SymMask(self.n, lambda i: z3.Not(self._at(i)), None, self.n - cnt)
        m.neg_of = self
        return m

    def __deepcopy__(self, memo):
        return self


def fresh_array(name, n, kind="float", nonneg=False, asc=False, integral=False, with_sum=False, flavour="ndarray",
                inp=True):
    c = Ctx.cur
    wh = integral and kind == "float"
    srt = z3.RealSort() if kind == "float" and not wh else z3.IntSort()
    f = c.fresh(name, z3.ArraySort(z3.IntSort(), srt))
    ps = None
    tot = None
    if with_sum:
        ps = z3.Function(f"psum_{name}_{len(c.inputs)}", z3.IntSort(), z3.RealSort())
        tot = c.fresh(name + ".total", z3.RealSort())
        c.assume(ps(z3.IntVal(0)) == 0)
        c.assume(ps(_I(n)) == tot)
        if nonneg:
            c.assume(tot >= 0)
    a = SymArray(n, (lambda i: z3.ToReal(z3.Select(f, i))) if wh else (lambda i: z3.Select(f, i)), kind, tot, T if nonneg else F, T if (integral or kind == "int") else F,
                 T if asc else F, flavour, name, ps)
    if inp:
        c.inputs[name] = a
    return a


def zeros(n):
    return SymArray(n, lambda i: z3.RealVal(0), "float", z3.RealVal(0), T, T, T, name="zeros")


def linspace(a, b, m):
    """np.linspace(a, b, m): m points, first a, last b, monotone (assumed contract)"""
    c = Ctx.cur
    ae, be, me = to_real(num_expr(a)), to_real(num_expr(b)), _I(m)
    d = z3.ToReal(me) - 1

    def at(i):
        return z3.If(i == me - 1, z3.If(me == 1, ae, be), ae + (be - ae) * z3.ToReal(i) / z3.If(d == 0, z3.RealVal(1), d))
    f = c.fresh("linspace", z3.ArraySort(z3.IntSort(), z3.RealSort()))
    arr = SymArray(me, lambda i: z3.Select(f, i), "float", None, F, F, z3.simplify(ae <= be), name="linspace")
    c.assume(z3.Implies(me >= 1, z3.Select(f, z3.IntVal(0)) == ae))
    c.assume(z3.Implies(me >= 2, z3.Select(f, me - 1) == be))
    arr.linspace = (ae, be, me)
    return arr


def concat(parts):
    Ctx.cur.stop(Unsupported("concatenate"))

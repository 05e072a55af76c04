"""P05: order classification."""
from __future__ import annotations

from .common import *
from dv.arrays import SymArray
from dv.core import Sym, need
from dv.loops import SymIter

I, R = z3.IntSort(), z3.RealSort()
ORDERS = ["ascending", "descending", "constant value", "random"]


class Txt(SymNum):
    """a text, by its place in the order of texts"""

    def __init__(self, e):
        SymNum.__init__(self, e, "float", False)

    def _dv_str(self):
        return self


def value(e, numeric):
    return SymNum(e, "float", True) if numeric else Txt(e)


class OrdSeries(Sym):
    """a series of n >= 1 values of one totally ordered type (numbers, or texts under their order embedded in the reals)"""

    def __init__(self, n, arr, numeric):
        self.n, self.arr, self.numeric = n, arr, numeric

    def at(self, i):
        return SymNum(z3.Select(self.arr, i), "float", True)

    def _dv_len(self):
        return SymNum(self.n, "int")

    def _dv_iter(self):
        return self.values._dv_iter()

    def astype(self, t, *a, **k):
        if t in (float, np.float64, "float", "float64"):
            if not self.numeric:
                raise ValueError("could not convert string to float")
            return self
        if t in (str, "str", object) and not self.numeric:
            return self
        Ctx.cur.stop(Unsupported("astype"))

    @property
    def values(self):
        arr, num = self.arr, self.numeric
        a = SymArray(self.n, lambda i: z3.Select(arr, i), kind="float", name="series")
        if not num:
            at = a.at
            a.at = lambda i: Txt(num_expr(at(i)))
        return a

    def to_numpy(self, *a, **k):
        return self.values

    tolist = to_list = to_numpy

    @property
    def iloc(self):
        return self.values

    def copy(self, *a, **k):
        return self

    def mono(self, up, strict=False):
        p, q = z3.Ints("p! q!")
        a, b = z3.Select(self.arr, p), z3.Select(self.arr, q)
        return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < self.n), a <= b if up else a >= b),
                         patterns=[z3.MultiPattern(a, b)])

    is_monotonic_increasing = property(lambda s: SymBool(s.mono(True)))
    is_monotonic_decreasing = property(lambda s: SymBool(s.mono(False)))


def order_invariants(loop, vars, slots, i):
    """annotations by value: a variable holding an order name says how the prefix seen so far runs; a number mirrors the
    previous value"""
    out = []
    if i is None:
        return out
    p, q = z3.Ints("p! q!")
    for sn, s in loop.ctx.run.ghosts.items():
        if not isinstance(s, OrdSeries):
            continue
        a, b = z3.Select(s.arr, p), z3.Select(s.arr, q)
        prev = z3.Select(s.arr, z3.If(i.e > 0, i.e - 1, 0))
        first = z3.Select(s.arr, 0)
        pre = z3.And(0 <= p, p < q, q < i.e)

        def fa(body):
            return z3.ForAll([p, q], z3.Implies(pre, body), patterns=[z3.MultiPattern(a, b)])
        for n, v in vars.items():
            if isinstance(v, SymNum) and v.e.sort() == R:
                out.append((f"{n} is the previous value", v.e == prev))
                out.append((f"{n} is the first value", v.e == first))
            if v is None or isinstance(v, str):
                out.append((f"{n}={v}: non-decreasing so far", fa(a <= b)))
                out.append((f"{n}={v}: non-increasing so far", fa(a >= b)))
                out.append((f"{n}={v}: rose so far", z3.And(i.e > 0, first < prev)))
                out.append((f"{n}={v}: fell so far", z3.And(i.e > 0, first > prev)))
                out.append((f"{n}={v}: equal so far", first == prev))
    return out


def series(ctx, name, numeric):
    n = ctx.fresh(name + ".n", I)
    ctx.assume(n >= 1)
    return OrdSeries(n, ctx.fresh(name, z3.ArraySort(I, R)), numeric)


def column():
    return need(env().mod("profilers.order_column_profile"), "OrderColumn")


def batch(numeric):
    """one batch, fresh column: the classification is that of the values"""
    def run(ctx):
        s = series(ctx, "rows", numeric)
        ctx.run.ghosts = {"rows": s}
        c = column()("c")
        c.update(s)
        ctx.alive()
        o = c.order
        ctx.run.cover(o)
        up, dn = s.mono(True), s.mono(False)
        first, last = z3.Select(s.arr, 0), z3.Select(s.arr, s.n - 1)
        if o == "ascending":
            ctx.prove("'ascending': the values never fall", up)
            ctx.prove("'ascending': not all are equal", first < last)
        elif o == "descending":
            ctx.prove("'descending': the values never rise", dn)
            ctx.prove("'descending': not all are equal", first > last)
        elif o == "constant value":
            ctx.prove("'constant value': all are equal (no rise)", dn)
            ctx.prove("'constant value': all are equal (no fall)", up)
        else:
            ctx.prove("one of the four orders", o == "random")
            ctx.prove("'random': the values fall somewhere", z3.Not(up))
            ctx.prove("'random': the values rise somewhere", z3.Not(dn))
        if o != "random":
            ctx.prove("first value", num_expr(c._first_value) == first)
            ctx.prove("last value", num_expr(c._last_value) == last)
        ctx.prove("sample size", num_expr(c.sample_size) == s.n)
        ctx.prove("a batch is one piece", c._piecewise is False or c._piecewise is None)
    return run


# ------------------------------------------------------------- states and merging
def inv(order, first, last, piecewise):
    """class invariant of a column that has seen data"""
    pw = as_bool(piecewise)
    if order == "ascending":
        return first < last
    if order == "descending":
        return first > last
    if order == "constant value":
        return z3.And(first <= last, z3.Implies(z3.Not(pw), first == last))
    return z3.BoolVal(True)


def as_bool(v):
    if isinstance(v, SymBool):
        return v.e
    return z3.BoolVal(bool(v))


def state(ctx, name, numeric, orders=ORDERS + [None], kind=None):
    C = column()
    c = C("c")
    o = kind if kind is not None else ctx.choose([str(x) for x in orders], f"{name} order")
    if o == "None":
        return c, None
    c.order = o
    f, l = ctx.fresh(name + ".first", R), ctx.fresh(name + ".last", R)
    c._first_value, c._last_value = value(f, numeric), value(l, numeric)
    pw = ctx.fresh(name + ".piecewise", z3.BoolSort())
    c._piecewise = SymBool(pw)
    c._data_store_type = np.float64 if numeric else str
    c.sample_size = SymNum(ctx.fresh(name + ".n", I), "int")
    ctx.assume(c.sample_size.e >= 1)
    ctx.assume(inv(o, f, l, c._piecewise))
    if o == "random":
        ctx.assume(z3.Not(pw))
    return c, o


def same(ctx, what, x, y):
    ctx.prove(f"{what}: order", x.order == y.order)
    for k in ("_first_value", "_last_value"):
        a, b = getattr(x, k), getattr(y, k)
        if a is None or b is None:
            ctx.prove(f"{what}: {k}", a is None and b is None)
        else:
            ctx.prove(f"{what}: {k}", num_expr(a) == num_expr(b))
    ctx.prove(f"{what}: piecewise", as_bool(x._piecewise) == as_bool(y._piecewise))


def parts_ok(ctx, o, parts):
    """what a merged order says about the parts"""
    if "random" in parts:
        ctx.prove("random stays random", o == "random")
    if {"ascending", "descending"} <= set(parts):
        ctx.prove("rising and falling parts are random together", o == "random")
    if o in ("ascending", "descending"):
        ctx.prove(f"'{o}': every part runs that way or is constant", all(x in (o, "constant value") for x in parts))
    if o == "constant value":
        ctx.prove("'constant value': every part is constant", all(x == "constant value" for x in parts))
    ctx.prove("one of the four orders", o in ORDERS)


def merge(numeric):
    def run(ctx):
        a, oa = state(ctx, "a", numeric)
        b, ob = state(ctx, "b", numeric)
        ab, ba = a + b, b + a
        ctx.alive()
        ctx.run.cover(str(ab.order))
        same(ctx, "a + b and b + a", ab, ba)
        if oa is None or ob is None:
            ctx.prove("nothing adds nothing", ab.order == (ob if oa is None else oa))
            if not (oa is None and ob is None):
                same(ctx, "nothing adds nothing", ab, b if oa is None else a)
            return
        parts_ok(ctx, ab.order, [oa, ob])
        ctx.prove("class invariant kept", inv(ab.order, num_expr(ab._first_value), num_expr(ab._last_value), ab._piecewise))
        if ab.order != "random":
            vs = [num_expr(x) for c in (a, b) for x in (c._first_value, c._last_value)]
            f, l = num_expr(ab._first_value), num_expr(ab._last_value)
            lo, hi = (f, l) if ab.order != "descending" else (l, f)
            ctx.prove("spans both parts", z3.And(*[z3.And(lo <= v, v <= hi) for v in vs],
                                                  z3.Or(*[lo == v for v in vs]), z3.Or(*[hi == v for v in vs])))
    return run


def reflected(ctx, c, o):
    """the column of the negated values"""
    r = column()("c")
    if o is None:
        return r
    r.order = {"ascending": "descending", "descending": "ascending"}.get(o, o)
    f, l = num_expr(c._first_value), num_expr(c._last_value)
    if o in ("constant value", "random"):
        f, l = l, f
    r._first_value, r._last_value = SymNum(-f, "float", True), SymNum(-l, "float", True)
    r._piecewise, r._data_store_type, r.sample_size = c._piecewise, c._data_store_type, c.sample_size
    return r


def reflection(ctx):
    a, oa = state(ctx, "a", True)
    b, ob = state(ctx, "b", True)
    m, n = a + b, reflected(ctx, a, oa) + reflected(ctx, b, ob)
    ctx.alive()
    ctx.run.cover(str(m.order))
    w = reflected(ctx, m, m.order)
    if m.order == "random":
        ctx.prove("order of the negated values", n.order == "random")
    else:
        same(ctx, "negated values", n, w)


def consecutive(up, numeric):
    """data that never falls (rises), in consecutive batches: the batch continues where the state ended"""
    def run(ctx):
        a, oa = state(ctx, "so far", numeric, ["ascending" if up else "descending", "constant value"])
        b, ob = state(ctx, "batch", numeric, ["ascending" if up else "descending", "constant value"])
        ctx.assume(z3.Not(b._piecewise.e))
        f, l = b._first_value.e, b._last_value.e
        # the last value of a constant state in several pieces is the largest, the first the smallest
        end = a._last_value.e if up or oa != "constant value" else a._first_value.e
        ctx.assume(f >= end if up else f <= end)
        m = a + b
        ctx.alive()
        ctx.run.cover(str(m.order))
        want = "ascending" if up else "descending"
        if oa == ob == "constant value":
            ctx.prove("constant parts stay constant", m.order == "constant value")
            ctx.prove("state end", (num_expr(m._last_value) if up else num_expr(m._first_value)) == l)
        else:
            ctx.prove(f"the whole is {want}", m.order == want)
            ctx.prove("state end", num_expr(m._last_value) == l)
    return run


def update_is_merge(numeric):
    """updating with a batch equals merging with a column of that batch (batch classification by its proved contract)"""
    def run(ctx):
        C = column()
        a, oa = state(ctx, "so far", numeric)
        b, ob = state(ctx, "batch", numeric, ORDERS)
        b._piecewise = False
        ctx.assume(inv(ob, b._first_value.e, b._last_value.e, False))
        m = a + b
        orig = need(C, "_get_data_order")
        C._get_data_order = lambda self, df_series, *x, **k: (ob, b._first_value, b._last_value, b._data_store_type)
        try:
            s = series(ctx, "rows", numeric)
            ctx.assume(s.n == b.sample_size.e)
            a.update(s)
        finally:
            C._get_data_order = orig
        ctx.alive()
        ctx.run.cover(str(a.order))
        ctx.prove("order", a.order == m.order)
        if m.order != "random":
            same(ctx, "update and merge", a, m)
        ctx.prove("sample size", num_expr(a.sample_size) == num_expr(m.sample_size))
    return run


PROOFS = {}
for _k, _n in (("numbers", True), ("texts", False)):
    PROOFS[f"one batch of {_k}"] = (batch(_n), {"loop_specs": [order_invariants], "covers": ORDERS})
    PROOFS[f"merging {_k}"] = (merge(_n), {"covers": ORDERS})
    PROOFS[f"update and merge of {_k}"] = (update_is_merge(_n), {"covers": ORDERS})
    PROOFS[f"never falling {_k} in consecutive batches"] = (consecutive(True, _n), {"covers": ["ascending", "constant value"]})
    PROOFS[f"never rising {_k} in consecutive batches"] = (consecutive(False, _n), {"covers": ["descending", "constant value"]})
PROOFS["negating the values swaps ascending and descending"] = (reflection, {"covers": ORDERS})
ASSUMPTIONS = ["values of one column are of one type: all numeric, or all texts compared as texts (a column switching from numbers to "
               "texts between batches is outside the property)",
               "text order is a countable total order, represented in the reals"]
TRUSTED = []

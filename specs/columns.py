"""Symbolic numeric column profiles.

The abstract state of a column that has seen the multiset D is S(D): what the
real `update` produces from a fresh column on D in one batch.  Induction over
histories: S(D1) updated with D2 is S(D1+D2), S(D1) + S(D2) is S(D1+D2).
Attributes for which this equality fails are dropped from the induction
hypothesis and made arbitrary in the start state (Houdini over attributes), so
bookkeeping attributes need not be named here; the observables must be proved
anyway.
"""
from __future__ import annotations

import z3

from dv.core import Ctx, Restart, SymNum, SymBool, Unsupported, is_sym, isnan, num_expr, to_real, sqrt
from dv import algebra
from dv.series import Data, RawSeries, NumSeries, Union, union
from dv.env import env
from .common import *

KINDS = {"float": ("float_column_profile", "FloatColumn", "FloatOptions", ("int", "frac")),
         "int": ("int_column_profile", "IntColumn", "IntOptions", ("int",)),
         "text": ("text_column_profile", "TextColumn", "TextOptions", None)}

NOHIST = ("histogram_and_quantiles", "median", "mode", "median_abs_deviation", "precision", "vocab")


def options(kind, off=NOHIST, bias=True):
    E = env()
    o = getattr(E.profiler_options, KINDS[kind][2])()
    for k in off:
        if hasattr(o, k):
            getattr(o, k).is_enabled = False
    o.bias_correction.is_enabled = bias
    return o


def column_class(kind):
    m, cls, *_ = KINDS[kind]
    return getattr(env().mod("profilers." + m), cls)


def make_column(kind, name="col", bias=True, off=NOHIST):
    return column_class(kind)(name, options(kind, off, bias))


class Batch:
    """a symbolic batch of rows and the ghost multiset it contributes"""

    def __init__(self, kind, name, rel=None, moments=True):
        self.kind = kind
        cls = KINDS[kind][3]
        if kind == "float":
            # one class stands for all parseable rows: the classifier is proved to accept exactly those
            self.series = RawSeries(name, classes=("frac", "text"), rel=rel, moments=moments)
            self.data = self.series.sub(("frac",)).numeric()
        elif kind == "int":
            self.series = RawSeries(name, classes=("int", "text"), rel=rel, moments=moments)
            self.data = self.series.sub(("int",)).numeric()
        else:
            self.series = RawSeries(name, classes=("int",), rel=rel, moments=moments)
            self.data = self.series.lens()
        self.rows = self.series.n


SKIP = {"times", "metadata", "_batch_history"}


def numeric_state(col):
    """attribute -> value for scalar attributes"""
    out = {}
    for k, v in col.__dict__.items():
        if k in SKIP:
            continue
        if is_sym(v) or v is None or (isinstance(v, (int, float, np.number)) and not isinstance(v, bool)):
            out[k] = v
    return out


def subst(ctx, e, m):
    """substitute ghost atoms, unfolding square roots"""
    for _ in range(6):
        names = {}

        def walk(x, seen=set()):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ctx.sqrt_defs:
                names[x.decl().name()] = x
            for c in x.children():
                walk(c)
        walk(e)
        hit = [(x, ctx.sqrt_defs[n]) for n, x in names.items() if _mentions(ctx.sqrt_defs[n], m)]
        if not hit:
            break
        reps = []
        for x, d in hit:
            nd = subst(ctx, d, m)
            s = sqrt(SymNum(nd, "float", True))
            if not is_sym(s):
                return None
            reps.append((x, s.e))
        e = z3.substitute(e, *reps)
    return z3.substitute(e, *m)


def _mentions(e, m):
    ids = {a.get_id() for a, _ in m}
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        stack.extend(x.children())
    return False


def same(ctx, a, b):
    if not is_sym(a) and not is_sym(b):
        return a is b or (isnan(a) and isnan(b)) or a == b
    if a is None or b is None or isnan(a) or isnan(b):
        return False
    try:
        ea, eb = num_expr(a), num_expr(b)
    except TypeError:
        return False
    if z3.is_true(z3.simplify(ea == eb)):
        return True
    ok, _ = algebra.equal(ctx, ea, eb)
    if ok:
        return True
    r, _ = ctx.check(ea != eb)
    return r == z3.unsat


def attr_drop():
    run = Ctx.cur.run
    return run.__dict__.setdefault("attr_drop", {}).setdefault(run.harness, set())


def start(col, tag):
    """forget the attributes that are not part of the induction hypothesis"""
    c = Ctx.cur
    for k in attr_drop():
        v = col.__dict__.get(k)
        if v is None or isnan(v):
            continue        # optional attributes keep their None/NaN case
        if isinstance(v, (SymNum, int, float, np.number)):
            kind = v.kind if isinstance(v, SymNum) else ("int" if isinstance(v, (int, np.integer)) else "float")
            col.__dict__[k] = SymNum(c.fresh(f"{tag}.{k}", z3.RealSort()), kind, True)


class Ref:
    """S(D) for an atomic ghost D, to be instantiated at the union"""

    def __init__(self, kind, bias, off, U, rowcount, moments):
        ctx = Ctx.cur
        self.U = U
        n0 = ctx.fresh("ref.n", z3.RealSort())
        ctx.assume(n0 >= 2)
        ctx.know_nonneg(n0)
        r0 = ctx.fresh("ref.rows", z3.RealSort())
        ctx.assume(r0 >= n0)
        ctx.know_nonneg(r0)
        d = Data.__new__(Data)
        d.name = "ref"
        d.n = n0
        d.counts = {}
        d.case = "varied"
        const = moments and ctx.branch(U.M2 == 0, "union constant")
        R = z3.RealSort()
        d.mu = ctx.fresh("ref.mean", R)
        d.lo, d.hi = ctx.fresh("ref.lo", R), ctx.fresh("ref.hi", R)
        if const:
            d.M2 = d.M3 = d.M4 = z3.RealVal(0)
        else:
            d.M2, d.M3, d.M4 = (ctx.fresh(f"ref.M{k}", R) for k in (2, 3, 4))
            big = z3.RealVal(1)
            ctx.assume(z3.And(d.M2 >= big, d.M4 >= big, d.M3 >= big))   # atoms only: any sign substitutes
            ctx.know_nonneg(d.M2)
            ctx.know_nonneg(d.M4)
        s = RawSeries.__new__(RawSeries)
        cls = {"float": "frac", "int": "int", "text": "int"}[kind]
        s.name, s.root, s.rel, s.moments = "ref", s, None, moments
        s.counts = {cls: n0} if kind == "text" else {cls: n0, "text": r0 - n0}
        s.n = n0 if kind == "text" else r0
        s._datas = {(cls,): d}
        s._lens = d
        col = make_column(kind, bias=bias, off=off)
        col.update(s)
        self.state = numeric_state(col)
        zero = {k: d.counts.get(k) for k in d.counts}
        self.map = [(n0, U.n), (r0, rowcount), (d.mu, U.mu), (d.lo, U.lo), (d.hi, U.hi)]
        if not const:
            self.map += [(d.M2, U.M2), (d.M3, U.M3), (d.M4, U.M4)]
        for (op, key), v in d.counts.items():
            k0 = z3.RealVal(0)
            self.map.append((v, U.count_where(op, k0)))

    def check(self, col):
        ctx = Ctx.cur
        st = numeric_state(col)
        drop = attr_drop()
        bad = []
        for k, v in self.state.items():
            if k in drop or k not in st:
                continue
            want = v
            if is_sym(v):
                e = subst(ctx, v.e, self.map)
                want = None if e is None else SymNum(e, v.kind, v.npy)
            if not same(ctx, st[k], want):
                bad.append(k)
        if bad:
            drop.update(bad)
            ctx.stop(Restart())


def history(kind, bias, off, obs, op, moments=True):
    """the induction step for `op` in {update, merge} and the observables after it"""
    ctx = Ctx.cur
    b1 = Batch(kind, "b1", moments=moments)
    c1 = make_column(kind, bias=bias, off=off)
    c1.update(b1.series)
    start(c1, "s1")
    b2 = Batch(kind, "b2", rel=b1.data, moments=moments)
    if op == "update":
        c1.update(b2.series)
        res = c1
    else:
        c2 = make_column(kind, bias=bias, off=off)
        c2.update(b2.series)
        start(c2, "s2")
        res = c1 + c2
    U = union(b1.data, b2.data)
    rows = b1.rows + b2.rows
    if isinstance(U, Union):
        ctx.run.cover("both parts non-empty")
        Ref(kind, bias, off, U, rows, moments).check(res)
    else:
        ctx.run.cover("one part empty")
    obs(ctx, res, U, rows, f"{kind}.{op}")


def oneshot(kind, bias, off, obs, moments=True):
    ctx = Ctx.cur
    b1 = Batch(kind, "b1", moments=moments)
    c1 = make_column(kind, bias=bias, off=off)
    c1.update(b1.series)
    obs(ctx, c1, b1.data, b1.rows, f"{kind}.single")

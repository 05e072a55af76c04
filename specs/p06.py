"""P06: categories and their counts.

Ghost: cnt(k), how often value k was seen.  State contract of a column with an exact count and no stop condition met:
dom(_categories) = {k : cnt(k) > 0}, _categories[k] = cnt(k)."""
from __future__ import annotations

from .common import *
from dv import keymaps
from dv.core import Sym, lit, need
from dv.keymaps import B, I, K, KeyMap, SymKey, View, i_, k_, key_dicts, map_invariants

CI = z3.ArraySort(K, I)


def fa(body):
    return z3.ForAll([k_], body)


class Counts:
    """ghost multiset of values"""

    def __init__(self, ctx, name, parts=()):
        self.parts = list(parts)
        if parts:
            self.n = sum(p.n for p in parts)
        else:
            self.f = ctx.fresh(name + ".count", CI)
            self.n = ctx.fresh(name + ".rows", I)
            ctx.assume(fa(z3.Select(self.f, k_) >= 0))
        self.d = ctx.fresh(name + ".distinct", I)
        ctx.assume(z3.And(self.n >= 0, self.d >= 0, self.d <= self.n, (self.n == 0) == (self.d == 0)))
        for p in parts:
            ctx.assume(self.d >= p.d)
        if parts:
            ctx.assume(self.d <= sum(p.d for p in parts))

    def at(self, k):
        return sum(p.at(k) for p in self.parts) if self.parts else z3.Select(self.f, k)

    def map(self, ctx, name, default=None):
        has, val = ctx.fresh(name + ".has", z3.ArraySort(K, B)), ctx.fresh(name + ".val", CI)
        ctx.assume(z3.ForAll([k_], z3.Select(has, k_) == (self.at(k_) > 0), patterns=[z3.Select(has, k_)]))
        ctx.assume(z3.ForAll([k_], z3.Implies(self.at(k_) > 0, z3.Select(val, k_) == self.at(k_)), patterns=[z3.Select(val, k_)]))
        m = KeyMap(has, val, default, name)
        m.set_card(self.d)
        return m


def is_counts(ctx, what, m, c):
    """obligation: the dictionary holds exactly the counts c"""
    if isinstance(m, dict) and not m:
        m = KeyMap()
    if not isinstance(m, KeyMap):
        ctx.stop(Unsupported(f"{what}: {type(m).__name__}"))
    if m.concrete():
        ctx.prove(f"{what}: no value is lost", c.n == 0)
        return
    h, v, n = z3.Select(m.has, k_), z3.Select(m.val, k_), c.at(k_)
    ctx.prove(f"{what}: the values seen, no others", fa(h == (n > 0)))
    ctx.prove(f"{what}: exact counts", fa(z3.Implies(n > 0, v == n)))
    m.set_card(c.d)      # domains are equal pointwise, so they have the same size


class Rows(Sym):
    """a batch; value_counts by contract"""

    def __init__(self, ctx, name):
        self.c = Counts(ctx, name)
        self.name = name
        self.asked = 0

    def _dv_len(self):
        return SymNum(self.c.n, "int")

    def value_counts(self, *a, dropna=True, **k):
        if dropna or a or k:
            Ctx.cur.stop(Unsupported("value_counts of something else than all rows"))
        return self

    def to_dict(self):
        return self.c.map(Ctx.cur, self.name + ".counts")


REAL = {}


def mods():
    pu, cc = env().mod("profilers.profiler_utils"), env().mod("profilers.categorical_column_profile")
    if not hasattr(pu, "_dv_keys"):
        pu._dv_keys = cc._dv_keys = True
        key_dicts(pu)
        key_dicts(cc)
        REAL["add"] = pu.add_nested_dictionaries
    return pu, cc


def add_contract(a, b):
    """contract of add_nested_dictionaries, proved by its own harness"""
    ctx = Ctx.cur
    if not isinstance(a, KeyMap) or not isinstance(b, KeyMap) or (a.concrete() and b.concrete()):
        return REAL["add"](a, b)
    has, val = ctx.fresh("sum.has", z3.ArraySort(K, B)), ctx.fresh("sum.val", CI)
    ah, bh, av, bv = z3.Select(a.has, k_), z3.Select(b.has, k_), z3.Select(a.val, k_), z3.Select(b.val, k_)
    ctx.assume(z3.ForAll([k_], z3.Select(has, k_) == z3.Or(ah, bh), patterns=[z3.Select(has, k_)]))
    ctx.assume(z3.ForAll([k_], z3.Select(val, k_) == z3.If(ah, z3.If(bh, av + bv, av), bv), patterns=[z3.Select(val, k_)]))
    return KeyMap(has, val, a.default_factory, "sum")


def add_nested(ctx):
    pu, _ = mods()
    f = need(pu, "add_nested_dictionaries")
    d1 = ctx.choose([int, None], "first has a default")

    def some(nm, d=None):
        return KeyMap(ctx.fresh(nm + ".has", z3.ArraySort(K, B)), ctx.fresh(nm + ".val", CI), d, nm)
    a, b = some("first", d1), some("second")
    ah, av, bh, bv = a.has, a.val, b.has, b.val
    r = f(a, b)
    ctx.alive()
    ctx.run.cover("returns")
    if not isinstance(r, KeyMap):
        ctx.stop(Unsupported(f"result {type(r).__name__}"))
    h, v = z3.Select(r.has, k_), z3.Select(r.val, k_)
    A, Bk = z3.Select(ah, k_), z3.Select(bh, k_)
    x, y = z3.Select(av, k_), z3.Select(bv, k_)
    ctx.prove("keys of either", fa(h == z3.Or(A, Bk)))
    ctx.prove("common keys add", fa(z3.Implies(z3.And(A, Bk), v == x + y)))
    ctx.prove("other keys keep their value", fa(z3.Implies(z3.And(h, z3.Not(z3.And(A, Bk))), v == z3.If(A, x, y))))
    ctx.prove("a new dictionary", r is not a and r is not b)
    ctx.prove("operands unchanged", a.has.eq(ah) and a.val.eq(av) and b.has.eq(bh) and b.val.eq(bv))
    ctx.prove("default kept", r.default_factory is d1)


class Stop:
    """stop condition options: none, or symbolic"""

    def __init__(self, ctx, name):
        self.on = ctx.choose(["off", "no ratio", "on"], f"{name}: stop condition")
        self.max = self.ratio = None
        if self.on != "off":
            self.max = SymNum(ctx.fresh(name + ".stop rows", I), "int")
            ctx.assume(self.max.e >= 0)
        if self.on == "on":
            self.ratio = SymNum(ctx.fresh(name + ".stop ratio", z3.RealSort()), "float")
            ctx.assume(z3.And(self.ratio.e >= 0, self.ratio.e <= 1))

    def met(self, n, d):
        return z3.And(n >= self.max.e, z3.ToReal(d) >= self.ratio.e * z3.ToReal(n)) if self.on == "on" else z3.BoolVal(False)


def column(ctx, cc, name, c, stop, stopped=False):
    """a column in a state satisfying the contract"""
    col = cc.CategoricalColumn("c")
    col.sample_size = SymNum(c.n, "int")
    col.max_sample_size_to_check_stop_condition, col.stop_condition_unique_value_ratio = stop.max, stop.ratio
    if stopped:
        col._categories = {}
        col._stop_condition_is_met = True
        col._stopped_at_unique_count = SymNum(c.d, "int")
        col._stopped_at_unique_ratio = SymNum(z3.ToReal(c.d) / z3.ToReal(c.n), "float")
        ctx.assume(c.n > 0)
    else:
        col._categories = c.map(ctx, name + ".categories", int)
    return col


def check(ctx, what, col, c, stopped):
    """obligations: the column's state and observables are those of c (stopped: frozen at c)"""
    ctx.prove_eq(f"{what}: sample_size", col.sample_size, SymNum(c.n, "int"))
    if stopped:
        ctx.prove(f"{what}: stop condition recorded", col._stop_condition_is_met is True)
        ctx.prove(f"{what}: not categorical once stopped", col.is_match is False)
        ctx.prove(f"{what}: no categories kept once stopped", len(col._categories) == 0)
        ctx.prove_eq(f"{what}: distinct values when stopped", col.unique_count, SymNum(c.d, "int"))
        ctx.prove_eq(f"{what}: distinct ratio when stopped", col.unique_ratio, SymNum(z3.ToReal(c.d) / z3.ToReal(c.n), "float"))
        return
    ctx.prove(f"{what}: not stopped", not col._stop_condition_is_met)
    is_counts(ctx, what, col._categories, c)
    ctx.prove_eq(f"{what}: unique_count", col.unique_count, SymNum(c.d, "int"))


def update(ctx):
    pu, cc = mods()
    pu.add_nested_dictionaries = add_contract
    c, stop, b = Counts(ctx, "seen"), Stop(ctx, "options"), Rows(ctx, "batch")
    stopped = ctx.choose([False, True], "already stopped")
    col = column(ctx, cc, "before", c, stop, stopped)
    r = col.update(b)
    ctx.alive()
    ctx.prove("update: returns the column", r is col)
    if stopped:
        ctx.run.cover("stopped before")
        check(ctx, "update after the stop", col, c, True)
        return
    t = Counts(ctx, "total", [c, b.c])
    m = col._categories
    if ctx.branch(b.c.n == 0):
        check(ctx, "update with no rows", col, c, False)
        return
    # card of the sum is the number of distinct values of the union: its domain is proved to be the union by the contract
    for h in list(ctx.__dict__.get("_cards", {}).values()):
        if "sum.has" in str(h[1]):
            ctx.assume(h[0] == t.d)
    now = ctx.branch(stop.met(t.n, t.d), "stop condition holds")
    ctx.run.cover("stops" if now else "counts")
    check(ctx, "update", col, t, now)


def merge(ctx):
    pu, cc = mods()
    pu.add_nested_dictionaries = add_contract
    c1, c2 = Counts(ctx, "seen1"), Counts(ctx, "seen2")
    st1 = Stop(ctx, "options1")
    st2 = Stop(ctx, "options2")
    s1, s2 = ctx.choose([False, True], "first stopped"), ctx.choose([False, True], "second stopped")
    a, b = column(ctx, cc, "first", c1, st1, s1), column(ctx, cc, "second", c2, st2, s2)
    before = [(x._categories, getattr(x._categories, "has", None), getattr(x._categories, "val", None), x.sample_size) for x in (a, b)]
    r = a + b
    ctx.alive()
    for x, (m, h, v, n) in zip((a, b), before):
        ctx.prove("merge: operands unchanged", x._categories is m and getattr(m, "has", None) is h and getattr(m, "val", None) is v
                  and x.sample_size is n)
        ctx.prove("merge: categories are not shared", r._categories is not m)
    t = Counts(ctx, "total", [c1, c2])
    if s1 or s2:
        ctx.run.cover("an operand stopped")
        first = ctx.branch(c1.n > c2.n, "first is larger")
        check(ctx, "merge with a stopped column", r, c1 if first else c2, True)
        return
    for h in list(ctx.__dict__.get("_cards", {}).values()):
        if "sum.has" in str(h[1]):
            ctx.assume(h[0] == t.d)
    # the stop options of the operand with more distinct values... the merged column takes those of one operand
    first = ctx.branch(c1.d < c2.d, "first has fewer distinct values")
    st = st1 if first else st2
    ctx.prove("merge: stop options of the operand with fewer distinct values",
              r.max_sample_size_to_check_stop_condition is st.max and r.stop_condition_unique_value_ratio is st.ratio)
    now = ctx.branch(z3.And(t.n > 0, st.met(t.n, t.d)), "stop condition holds")
    if st.on == "on" and ctx.branch(t.n == 0):
        return        # merging two empty columns: nothing claimed
    ctx.run.cover("stops" if now else "counts")
    check(ctx, "merge", r, t, now)


def sum_invariants(loop, vars, slots, i):
    """a number accumulated over the categories is a combination of the power sums of their counts"""
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    n = Ctx.cur.run.ghosts.get("n")
    if not isinstance(src, keymaps.Enum) or n is None or i is None:
        return out
    A = src.prefix("sum", lambda v: v, i.e)
    Q = src.prefix("squares", lambda v: v * v, i.e)
    nr = z3.ToReal(n.e)
    for v, x in vars.items():
        e = loop.entry.get(v)
        if isinstance(x, (SymNum, int, float)) and isinstance(e, (SymNum, int, float)) and not isinstance(x, bool):
            d = to_real(num_expr(x)) - to_real(num_expr(e))
            out.append((f"{v} == entry + sum c/n (1 - c/n)", d * nr * nr == A * nr - Q))
            out.append((f"{v} == entry + sum (n - c) c", d == A * nr - Q))
            out.append((f"{v} == entry + sum c", d == A))
            out.append((f"{v} == entry + sum c^2", d == Q))
            out.append((f"{v} == entry + sum (c/n)^2", d * nr * nr == Q))
    return out


def observables(ctx):
    pu, cc = mods()
    c = Counts(ctx, "seen")
    off = type("S", (), dict(on="off", max=None, ratio=None))
    col = column(ctx, cc, "column", c, off)
    ctx.run.ghosts = {"n": col.sample_size}
    ctx.inputs["rows"] = col.sample_size
    if ctx.branch(c.n == 0, "no rows"):
        ctx.prove("nothing seen: no gini impurity", col.gini_impurity is None)
        ctx.prove("nothing seen: no unalikeability", col.unalikeability is None)
        ctx.prove_eq("nothing seen: unique ratio 0", col.unique_ratio, 0)
        ctx.prove("nothing seen: categorical", col.is_match is True)
        return
    ctx.run.cover("some rows")
    m = col._categories
    e = m.enum()
    n = z3.ToReal(c.n)
    A, Q = e.prefix("sum", None, e.n), e.prefix("squares", None, e.n)
    g = col.gini_impurity
    ctx.prove("gini impurity is the sum of p(1-p)", num_expr(g) * n * n == A * n - Q)
    u = col.unalikeability
    if ctx.branch(c.n == 1):
        ctx.prove_eq("unalikeability of one row", u, 0)
    else:
        ctx.prove("unalikeability is the sum of c(n-c) over n(n-1)", to_real(num_expr(u)) * (n * n - n) == A * n - Q)
    ctx.prove_eq("unique count", col.unique_count, SymNum(c.d, "int"))
    ctx.prove_eq("unique ratio", col.unique_ratio, SymNum(z3.ToReal(c.d) / n, "float"))
    im = col.is_match
    ctx.prove("is_match is a truth value", isinstance(im, bool))
    want = z3.Or(c.d <= 10, z3.ToReal(c.d) <= lit(0.2) * n)
    ctx.prove("categorical iff few distinct values or ratio", want if im else z3.Not(want))
    k = col.categorical_counts
    is_counts(ctx, "categorical_counts", k, c)
    ctx.prove("categorical_counts is a copy", k is not m)
    cats = col.categories
    ctx.prove("categories are the keys", isinstance(cats, View) and cats.m.has.eq(m.has))


PROOFS = {"add dictionaries": (add_nested, {"loop_specs": [map_invariants], "covers": ["returns"]}),
          "update": (update, {"covers": ["stops", "counts", "stopped before"]}),
          "merge": (merge, {"covers": ["stops", "counts", "an operand stopped"]}),
          "observables": (observables, {"loop_specs": [sum_invariants], "covers": ["some rows"]})}
ASSUMPTIONS = ["value_counts(dropna=False).to_dict() counts every row under its value",
               "counts of a union: the distinct values lie between the larger part and the sum of the parts; two dictionaries with "
               "pointwise equal domains have the same length"]
TRUSTED = []

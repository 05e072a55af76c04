"""P07: null accounting and row statistics.

Ghost of a column: the set of row identities under each null type.  Class invariant: identities are whole numbers in
[_min_id, _max_id]."""
from __future__ import annotations

import pandas as pd

from .common import *
from dv import sets
from dv.core import Sym, need
from dv.loops import SymIter
from dv.sets import A, I, IntSet, card, defined, int_sets, same, x_

TYPES = ("", "nan")


def fa(body, pat=None):
    return z3.ForAll([x_], body, patterns=[pat]) if pat is not None else z3.ForAll([x_], body)


def num(ctx, name, lo=None):
    v = SymNum(ctx.fresh(name, I), "int")
    ctx.inputs[name] = v
    if lo is not None:
        ctx.assume(v.e >= lo)
    return v


def mod():
    pb = env().mod("profilers.profile_builder")
    if not hasattr(pb, "_dv_sets"):
        pb._dv_sets = True
        int_sets(pb)
    return pb


def part(ctx, name, types, lo, hi, flavour):
    """ids of nulls per type, all within [lo, hi]"""
    out = {}
    for t in types:
        s = IntSet(ctx.fresh(f"{name} ids {t!r}", A))
        s.rep_type = flavour
        if lo is not None:
            ctx.assume(fa(z3.Implies(s.has(x_), z3.And(lo.e <= x_, x_ <= hi.e)), s.has(x_)))
        out[t] = s
    return out


def state(ctx, pb, name, ids):
    c = pb.StructuredColProfiler()
    c.name = "c"
    c.sample_size, c.null_count = num(ctx, name + " rows", 1), num(ctx, name + " nulls", 0)
    ctx.assume(c.null_count.e <= c.sample_size.e)
    c.null_ratio = c.null_count / c.sample_size
    lo = hi = None
    if ids:
        lo, hi = num(ctx, name + " first id"), num(ctx, name + " last id")
        ctx.assume(lo.e <= hi.e)
    c._min_id, c._max_id = lo, hi
    if ids:
        c._index_shift = ctx.choose([None, num(ctx, name + " last shift")], name + " shifted")     # of an earlier batch
    types = ctx.choose([(), ("",), TYPES], name + " null types")
    c.null_types_index = part(ctx, name, types, lo, hi, set)
    c.null_types = list(types)
    return c


def base_stats(ctx):
    """StructuredColProfiler._update_base_stats"""
    pb = mod()
    first = ctx.choose([False, True], "first batch")
    ids = ctx.choose([True, False], "whole-number row labels")
    if first:
        col = pb.StructuredColProfiler()
    else:
        col = state(ctx, pb, "seen", ids)
    lo = hi = None
    if ids:
        lo, hi = num(ctx, "batch first id"), num(ctx, "batch last id")
        ctx.assume(lo.e <= hi.e)
    types = ctx.choose([(), ("nan",), TYPES], "batch null types")
    b = part(ctx, "batch", types, lo, hi, ctx.choose([list, set], "ids as"))
    n, k = num(ctx, "batch rows", 1), num(ctx, "batch nulls", 0)
    ctx.assume(k.e <= n.e)
    before = {t: s.arr for t, s in col.null_types_index.items()}
    barr = {t: s.arr for t, s in b.items()}
    n0, k0, lo0, hi0, types0 = col.sample_size, col.null_count, col._min_id, col._max_id, set(col.null_types)
    col._update_base_stats({"sample": ["v"], "sample_size": n, "null_count": k, "null_types": b, "min_id": lo, "max_id": hi})
    ctx.alive()
    ctx.run.cover("first" if first else "shifted" if ids and col._index_shift is not None else "not shifted")
    ctx.prove_eq("rows add up", col.sample_size, n0 + n)
    ctx.prove_eq("nulls add up", col.null_count, k0 + k)
    ctx.prove_eq("null ratio is that of all rows", col.null_ratio, (k0 + k) / (n0 + n))
    ctx.prove("null types are those seen", set(col.null_types) == types0 | set(types) and len(col.null_types) == len(set(col.null_types)))
    ctx.prove("null types index has the null types", set(col.null_types_index) == types0 | set(types))
    d = z3.IntVal(0)
    if ids and not first:
        ov = ctx.branch(z3.And(lo.e <= hi0.e, lo0.e <= hi.e), "labels overlap")
        if ov:
            if not isinstance(col._index_shift, (SymNum, int)):
                ctx.prove("overlapping labels are shifted", False)
                return
            d = num_expr(col._index_shift)
            ctx.prove("shifted labels are new", z3.And(lo.e + d > hi0.e))
        else:
            ctx.prove("labels that do not overlap are kept", col._index_shift is None)
        ctx.prove("range covers old and new ids", z3.And(num_expr(col._min_id) <= lo0.e, num_expr(col._min_id) <= lo.e + d,
                                                         num_expr(col._max_id) >= hi0.e, num_expr(col._max_id) >= hi.e + d))
    elif ids:
        ctx.prove("range is the batch's", z3.And(num_expr(col._min_id) == lo.e, num_expr(col._max_id) == hi.e))
    for t, s in col.null_types_index.items():
        if not isinstance(s, IntSet):
            ctx.stop(Unsupported(f"null rows kept as {type(s).__name__}"))
        old, new = before.get(t, sets.EMPTY), barr.get(t, sets.EMPTY)
        ctx.prove("every null row of before and of the batch, no other",
                  fa(s.has(x_) == z3.Or(z3.Select(old, x_), z3.Select(new, x_ - d))))
        if ids and not first:
            for t2, old2 in before.items():
                ctx.prove("new null rows are distinct from all old ones",
                          fa(z3.Not(z3.And(z3.Select(old2, x_), z3.Select(new, x_ - d)))))
            ctx.prove("ids stay in range", fa(z3.Implies(s.has(x_), z3.And(num_expr(col._min_id) <= x_, x_ <= num_expr(col._max_id)))))


def merge(ctx):
    """StructuredColProfiler.__add__: base statistics of the two operands"""
    pb = mod()
    a, b = state(ctx, pb, "first", True), state(ctx, pb, "second", True)
    a.sample, b.sample = ["v", "w"], ["w", "z"]
    pre = [{t: (s, s.arr) for t, s in x.null_types_index.items()} for x in (a, b)]
    r = a + b
    ctx.alive()
    for x, p in zip((a, b), pre):
        ctx.prove("operands keep their null rows", list(x.null_types_index) == list(p) and
                  all(x.null_types_index[t] is s and s.arr.eq(v) for t, (s, v) in p.items()))
        ctx.prove("the result shares no null rows with an operand", all(s is not o for s in r.null_types_index.values() for o, _ in p.values()))
    ctx.prove_eq("rows add up", r.sample_size, a.sample_size + b.sample_size)
    ctx.prove_eq("nulls add up", r.null_count, a.null_count + b.null_count)
    ctx.prove_eq("null ratio is that of all rows", r.null_ratio, (a.null_count + b.null_count) / (a.sample_size + b.sample_size))
    ctx.prove("null types of either", set(r.null_types) == set(a.null_types) | set(b.null_types))
    ctx.prove("samples are samples of either", set(r.sample) <= {"v", "w", "z"} and len(r.sample) == 3)
    ov = ctx.branch(z3.And(b._min_id.e <= a._max_id.e, a._min_id.e <= b._max_id.e), "labels overlap")
    ctx.run.cover("overlap" if ov else "no overlap")
    d = num_expr(r._index_shift) if ov and r._index_shift is not None else z3.IntVal(0)
    if ov:
        ctx.prove("shifted labels are new", b._min_id.e + d > a._max_id.e)
    for t, s in r.null_types_index.items():
        oa = a.null_types_index[t].arr if t in a.null_types_index else sets.EMPTY
        ob = b.null_types_index[t].arr if t in b.null_types_index else sets.EMPTY
        ctx.prove("every null row of both, no other", fa(s.has(x_) == z3.Or(z3.Select(oa, x_), z3.Select(ob, x_ - d))))
        ctx.prove("no null row of one is taken for one of the other", fa(z3.Not(z3.And(z3.Select(oa, x_), z3.Select(ob, x_ - d)))))


# ------------------------------------------------------------------ row statistics
class Columns(Sym):
    """any number of columns; ghost: nulls(j), and the running union and intersection (recursive definitions)"""
    rep_type = list

    def __init__(self, ctx, pb, m, shift):
        self.m, self.pb, self.shift = m, pb, shift
        AA = z3.ArraySort(I, A)
        self.nulls, self.some, self.every = (ctx.fresh(n, AA) for n in ("nulls of column", "some of the first", "all of the first"))
        ctx.assume(fa(z3.Not(self.at(self.some, 0, x_))))
        self.w = None

    @staticmethod
    def at(a, j, x):
        return z3.Select(z3.Select(a, j), x)

    def keep(self, x):
        """rows that count: all, or the labels of this batch's sample"""
        return z3.BoolVal(True) if self.w is None else z3.Select(self.w, x)

    def unfold(self, j):
        c = Ctx.cur
        o, n = j, j + 1
        c.assume(fa(self.at(self.some, n, x_) == z3.Or(self.at(self.some, o, x_), z3.And(self.at(self.nulls, o, x_), self.keep(x_)))))
        c.assume(fa(self.at(self.every, n, x_) == z3.And(z3.Or(o == 0, self.at(self.every, o, x_)), self.at(self.nulls, o, x_), self.keep(x_))))

    def _dv_iter(self):
        def at(i):
            c = Ctx.cur
            j = num_expr(i)
            self.unfold(j)
            col = self.pb.StructuredColProfiler()
            col._index_shift = self.shift
            nul = z3.Select(self.nulls, j)
            if c.branch(c.fresh("column has nulls", z3.BoolSort()), "column has nulls"):
                one, two = (IntSet(c.fresh("type", A)) for _ in range(2))
                c.assume(fa(z3.Select(nul, x_) == z3.Or(one.has(x_), two.has(x_))))
                col.null_types_index = {"": one, "nan": two}
            else:
                c.assume(fa(z3.Not(z3.Select(nul, x_))))
                col.null_types_index = {}
            return col
        return SymIter(SymNum(self.m, "int"), at, self)

    def _dv_len(self):
        return SymNum(self.m, "int")


class Frame(Sym):
    rep_type = pd.DataFrame

    def __init__(self, labels):
        self.labels = labels

    @property
    def index(self):
        return Labels(self.labels)


class Labels(Sym):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if not isinstance(k, Ids) or k.upto is None:
            Ctx.cur.stop(Unsupported("labels of other rows than the sampled ones"))
        return IntSet(self.s)


class Ids(Sym):
    """row numbers in sampling order"""

    def __init__(self, k, upto=None):
        self.k, self.upto = k, upto

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.start is not None or s.step is not None or not isinstance(s.stop, SymNum) or not s.stop.e.eq(self.k.e):
            Ctx.cur.stop(Unsupported("other slice of the sampled rows"))
        return Ids(self.k, self.k)


def row_invariants(loop, vars, slots, i):
    out = []
    cols = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if not isinstance(cols, Columns) or i is None:
        return out
    for n, v in vars.items():
        e = loop.entry.get(n)
        if isinstance(v, IntSet) and isinstance(e, IntSet):
            out.append((f"{n}: rows with a null so far", fa(v.has(x_) == Columns.at(cols.some, i.e, x_))))
            out.append((f"{n}: rows of nulls so far", fa(z3.Implies(i.e > 0, v.has(x_) == Columns.at(cols.every, i.e, x_)))))
            out.append((f"{n}: a counted set", fa(z3.Implies(v.has(x_), cols.keep(x_)))))
        if isinstance(v, (bool, SymBool)):
            out.append((f"{n} iff first", as_bool(v) == (i.e == 0)))
            out.append((f"not {n} iff first", z3.Not(as_bool(v)) == (i.e == 0)))
    return out


def as_bool(v):
    return v.e if isinstance(v, SymBool) else z3.BoolVal(bool(v))


def rows(ctx):
    """StructuredProfiler._update_row_statistics, null counts"""
    pb = mod()
    m, k = num(ctx, "columns", 1), num(ctx, "sampled rows", 1)
    sampled = ctx.choose([False, True], "counts the batch only")
    shift = ctx.choose([None, "shifted"], "labels shifted") if sampled else None
    if shift:
        shift = num(ctx, "shift")

    class P(pb.StructuredProfiler):
        _min_sampled_from_batch = property(lambda s: k)
    p = object.__new__(P)
    from types import SimpleNamespace as NS
    p.options = NS(row_statistics=NS(is_enabled=True, unique_count=NS(is_enabled=False), null_count=NS(is_enabled=True)))
    p.times = {"row_stats": 0.0}
    h0, a0 = num(ctx, "rows with a null before", 0), num(ctx, "rows of nulls before", 0)
    p.row_has_null_count, p.row_is_null_count = h0, a0
    cols = Columns(ctx, pb, m.e, shift)
    labels = ctx.fresh("labels", A)
    if sampled:
        cols.w = labels if shift is None else (IntSet(labels) + shift).arr
    p._profile = cols
    f = need(pb.StructuredProfiler, "_update_row_statistics")
    f(p, Frame(labels), Ids(k) if sampled else None)
    ctx.alive()
    ctx.run.cover("batch only" if sampled else "all")
    some, every = z3.Select(cols.some, m.e), z3.Select(cols.every, m.e)
    ns, ne = same(some), same(every)
    ctx.prove("rows with a null in some column", num_expr(p.row_has_null_count) == (ns + h0.e if sampled else ns))
    ctx.prove("rows with a null in every column", num_expr(p.row_is_null_count) == (ne + a0.e if sampled else ne))


def ratios(ctx):
    pb = mod()
    used, total = num(ctx, "rows used", 0), num(ctx, "rows", 0)
    d = num(ctx, "distinct rows", 0)

    class P(pb.StructuredProfiler):
        _min_col_samples_used = property(lambda s: used)
    p = object.__new__(P)
    from types import SimpleNamespace as NS
    on = {x: ctx.choose([True, False], x) for x in ("row statistics", "unique count", "null count")}
    p.options = NS(row_statistics=NS(is_enabled=on["row statistics"], unique_count=NS(is_enabled=on["unique count"], hashing_method="full"),
                                     null_count=NS(is_enabled=on["null count"])))
    p.row_has_null_count, p.row_is_null_count, p.total_samples = num(ctx, "has", 0), num(ctx, "is", 0), total

    class Hashes(Sym):
        rep_type = dict

        def _dv_len(self):
            return d
    p.hashed_row_object = Hashes()
    nul, uni = on["row statistics"] and on["null count"], on["row statistics"] and on["unique count"]
    for f, k in ((p._get_row_has_null_ratio, p.row_has_null_count), (p._get_row_is_null_ratio, p.row_is_null_count)):
        r = f()
        if not nul:
            ctx.prove("no null ratio when disabled", r is None)
        elif ctx.branch(used.e == 0):
            ctx.prove_eq("no rows: ratio 0", r, 0)
        else:
            ctx.prove_eq("null ratio over the rows used", r, k / used)
    r, q = p._get_unique_row_ratio(), p._get_duplicate_row_count()
    if not uni:
        ctx.prove("no unique ratio when disabled", r is None and q is None)
        return
    ctx.prove_eq("duplicates are the rows beyond the distinct ones", q, total - d)
    if ctx.branch(total.e == 0):
        ctx.prove_eq("no rows: unique ratio 0", r, 0)
    else:
        ctx.run.cover("ratios")
        ctx.prove_eq("unique ratio", r, d / total)


PROOFS = {"base statistics": (base_stats, {"covers": ["first", "shifted", "not shifted"]}),
          "merge of base statistics": (merge, {"covers": ["overlap", "no overlap"]}),
          "row null counts": (rows, {"loop_specs": [row_invariants], "covers": ["batch only", "all"]}),
          "ratios": (ratios, {"covers": ["ratios"]})}
ASSUMPTIONS = ["all columns of a profile share the shift of row labels (they are given the same batches)",
               "clean_data_and_get_base_stats (splitting a batch into null and other rows through pandas string matching) by contract; "
               "bounded runtime contract 'nulls and rows' exercises it"]
TRUSTED = []

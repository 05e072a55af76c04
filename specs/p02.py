"""P02: extremes and counters."""
from __future__ import annotations

from .common import *
from dv.core import PathKill, SymStr
from .columns import history, oneshot, NOHIST

OFF = NOHIST + ("variance", "skewness", "kurtosis")


def obs(ctx, col, d, rows, tag):
    empty = ctx.branch(d.n == 0)
    ctx.prove_eq(f"{tag}: min", col.min, None if empty else N(d.lo))
    ctx.prove_eq(f"{tag}: max", col.max, None if empty else N(d.hi))
    if tag.startswith("text"):
        return _common(ctx, col, d, rows, tag)
    ctx.prove_eq(f"{tag}: num_zeros", col.num_zeros, N(d.count_where("==", z3.RealVal(0))))
    ctx.prove_eq(f"{tag}: num_negatives", col.num_negatives, N(d.count_where("<", z3.RealVal(0))))
    _common(ctx, col, d, rows, tag)


def _common(ctx, col, d, rows, tag):
    ctx.prove_eq(f"{tag}: match_count", col.match_count, N(d.n))
    ctx.prove_eq(f"{tag}: sample_size is the number of rows seen", col.sample_size, N(rows))


PROOFS = {}
for kind in ("int", "float", "text"):
    PROOFS[f"single {kind}"] = (lambda c, k=kind: oneshot(k, True, OFF, obs, moments=False), {})
    PROOFS[f"update {kind}"] = (lambda c, k=kind: history(k, True, OFF, obs, "update", moments=False),
                                {"weight": 5, "covers": ["both parts non-empty", "one part empty"]})
    PROOFS[f"merge {kind}"] = (lambda c, k=kind: history(k, True, OFF, obs, "merge", moments=False),
                               {"weight": 5, "covers": ["both parts non-empty", "one part empty"]})
ASSUMPTIONS = ["data are finite"]
TRUSTED = []


# ---------------------------------------------------------------- date columns
class SymDate(SymStr):
    """a date: an element of a total order, always truthy"""
    __slots__ = ()

    def __bool__(self):
        return True


def _date(name):
    c = Ctx.cur
    v = SymDate(c.fresh(name, z3.RealSort()), "float")
    c.inputs[name] = v
    return v


class _Dates:
    """a batch of rows; ghost: number of parseable rows, earliest and latest parsed date, and the rows showing them"""

    def __init__(self, ctx, name):
        self.series = RawSeries(name, classes=("text",))
        self.n = self.series.n
        self.some = ctx.choose([True, False], f"{name} has dates")
        self.m = ctx.fresh(name + ".matches", z3.RealSort())
        ctx.assume(z3.And(self.m >= (1 if self.some else 0), self.m <= self.n))
        if not self.some:
            ctx.assume(self.m == 0)
        self.lo, self.hi = _date(name + ".earliest"), _date(name + ".latest")
        ctx.assume(self.lo.e <= self.hi.e)
        self.lo_row, self.hi_row = f"<earliest row of {name}>", f"<latest row of {name}>"


def _date_column(ctx):
    import datetime
    cls = env().mod("profilers.datetime_column_profile").DateTimeColumn
    cur = {}

    class Column(cls):
        # contract of the parser (bounded runtime contract "dates"): assumed here
        def _is_subset_datetime_column(self, df_series):
            return cur["b"].some

        @classmethod
        def _get_datetime_profile(self, df_series):
            b = cur["b"]
            return {"date_formats": ["%f"], "min": b.lo_row, "max": b.hi_row, "min_obj": b.lo, "max_obj": b.hi,
                    "match_count": SymNum(b.m, "int")}
    Column.__name__ = cls.__name__

    def update(col, b):
        cur["b"] = b
        if ctx.branch(b.n == 0, "no rows"):
            if b.some:
                ctx.stop(PathKill("contradiction"))
        col.update(b.series)
    return cls, Column, update


def dates(ctx, op):
    cls, Column, update = _date_column(ctx)
    c1 = Column("c")
    b1, b2 = _Dates(ctx, "b1"), _Dates(ctx, "b2")
    update(c1, b1)
    if op == "update":
        update(c1, b2)
        res = c1
    else:
        c2 = Column("c")
        update(c2, b2)
        res = c1 + c2
    parts = [b for b in (b1, b2) if b.some]
    ctx.prove_eq(f"dates.{op}: match_count", res.match_count, SymNum(b1.m + b2.m, "int"))
    ctx.prove_eq(f"dates.{op}: sample_size", res.sample_size, SymNum(b1.n + b2.n, "int"))
    prof = res.profile
    if not parts:
        ctx.prove(f"dates.{op}: no dates, no extremes", prof["min"] is None and prof["max"] is None)
        return
    ctx.run.cover("some dates")
    for what, row, key, better in (("earliest", "lo_row", "lo", lambda a, b: a <= b), ("latest", "hi_row", "hi", lambda a, b: a >= b)):
        shown = prof["min" if key == "lo" else "max"]
        ctx.prove(f"dates.{op}: the {what} date shown is a row of the data", any(shown == getattr(b, row) for b in parts))
        for b in parts:
            if shown == getattr(b, row):
                for o in parts:
                    ctx.prove(f"dates.{op}: no row is {'before' if key == 'lo' else 'after'} the {what} date",
                              better(getattr(b, key).e, getattr(o, key).e))


for _op in ("update", "merge"):
    PROOFS[f"dates {_op}"] = (lambda c, o=_op: dates(c, o), {"covers": ["some dates"]})
ASSUMPTIONS.append("date parsing (which rows are dates, earliest/latest of one batch) by contract; bounded runtime contract 'dates' exercises it")

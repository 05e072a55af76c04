"""P09: merging leaves both operands as they were and shares no state with them."""
from __future__ import annotations

import types
from collections import OrderedDict, defaultdict

import z3

from dv import heap
from dv.core import Ctx, EngineStop, Sym, SymNum, SymBool, Unsupported, is_sym, num_expr
from dv.env import env
from dv.core import need
from . import columns, p02, p03, p05, p06, p07
from .common import N

CACHES = {"times", "histogram_methods", "histogram_selection"}      # run times; lazily filled, recomputed on demand


class Done(EngineStop):
    pass


def immutable(x):
    m = type(x).__module__ or ""
    return isinstance(x, (tuple, frozenset, types.FunctionType, type)) or m.endswith("profiler_options") or ".labelers" in m


def under(path):
    return any(f".{c}" in path for c in CACHES)


def frame(ctx, who, snap):
    """nothing reachable from an operand has changed"""
    bad = []
    for x, path, c in snap.nodes.values():
        if under(path):
            continue
        now = heap.content(x)
        if now == c:
            continue
        if heap._is_obj(x) and not hasattr(x, "_dv_content"):
            a, b = dict(c), dict(now)
            bad += [f"{path}.{k}" for k in set(a) | set(b) if a.get(k) != b.get(k) and k not in CACHES]
        else:
            bad.append(path)
    for p in bad:
        ctx.prove(f"frame: {p} is left alone by the merge", False)
    ctx.prove(f"frame: everything reachable from the {who} operand is left alone", not bad)


def apart(ctx, r, snaps):
    """no mutable object is reachable from the result and from an operand"""
    res = heap.snapshot({"result": r})
    bad = []
    for who, s in snaps:
        for i, (x, path, c) in s.nodes.items():
            if i in res.nodes and not immutable(x) and not under(path) and not path.startswith("ghost:"):
                bad.append(f"{res.nodes[i][1]} is {path}")
    for p in bad:
        ctx.prove(f"ownership: {p}", False)
    ctx.prove("ownership: the result shares no mutable object with an operand", not bad)


def merged(cls):
    """the real + of the class, checked against frame and ownership; ends the path"""
    real = cls.__dict__.get("_dv_add") or cls.__add__
    cls._dv_add = real

    def add(self, other):
        ctx = Ctx.cur
        snaps = [(w, heap.snapshot({w: x})) for w, x in (("first", self), ("second", other))]
        r = real(self, other)
        ctx.alive()
        ctx.prove("the result is a new object", r is not self and r is not other)
        for w, s in snaps:
            frame(ctx, w, s)
        apart(ctx, r, snaps)
        ctx.run.cover("merged")
        raise Done()
    cls.__add__ = add


def within(inner, *classes):
    """run another property's merge harness up to and including the first real merge"""
    def run(ctx):
        for c in classes:
            merged(c())
        try:
            inner(ctx)
        except Done:
            return
    return run


def col(kind):
    return lambda: columns.column_class(kind)


def cls(mod, name):
    return lambda: getattr(env().mod("profilers." + mod), name)


class Part:
    """a statistics profile under the contract this property proves of every + : a new object, operands left alone"""
    thread_safe = True

    def __init__(self, *of):
        self.of = lambda: of
        self.state = []

    def __add__(self, other):
        if not isinstance(other, Part):
            return NotImplemented
        return Part(self, other)


Part.__module__ = "dataprofiler.part"


def compilers(ctx):
    m = env().mod("profilers.column_profile_compilers")
    c = ctx.choose(["ColumnPrimitiveTypeProfileCompiler", "ColumnStatsProfileCompiler", "ColumnDataLabelerCompiler", "UnstructuredCompiler"], "compiler")
    C = getattr(m, c)
    a, b = C(), C()
    a.name = b.name = "c"
    names = [p.type for p in C._profilers if ctx.choose([True, False], p.type)]
    for x in (a, b):
        for n in (names if x is a or ctx.choose([True, False], "same order") else names[::-1]):
            x._profiles[n] = Part()
    pa, pb = dict(a._profiles), dict(b._profiles)
    snaps = [(w, heap.snapshot({w: x})) for w, x in (("first", a), ("second", b))]
    r = a + b
    ctx.alive()
    ctx.run.cover("merged")
    for w, s in snaps:
        frame(ctx, w, s)
    apart(ctx, r, snaps)
    ctx.prove("the same statistics", type(r) is C and set(r._profiles) == set(names) and r.name == "c")
    for n in names:
        q = r._profiles[n]
        ctx.prove("each statistic is the merge of its two parts", isinstance(q, Part) and len(q.of()) == 2 and q.of()[0] is pa[n] and q.of()[1] is pb[n])


class Sketch:
    """contract of HyperLogLog: merge changes only the receiver"""

    def __init__(self, **k):
        self.regs = []

    def merge(self, other):
        self.regs.append(len(other.regs))


Sketch.__module__ = "dataprofiler.sketch"


def profile(ctx, pb, name, opts, cols, n):
    p = pb.StructuredProfiler(None, options=opts)
    p.total_samples = p07.num(ctx, name + " rows", 0)
    p.row_has_null_count, p.row_is_null_count = p07.num(ctx, name + " rows with null", 0), p07.num(ctx, name + " null rows", 0)
    for i, c in enumerate(cols):
        p._col_name_to_idx[c].append(i)
        p._profile.append(Part())
        p._profile[-1].name = c
        p._profile[-1].null_count = 0
    if isinstance(p.hashed_row_object, dict):
        p.hashed_row_object[name] = True
    p.file_type, p.encoding = "csv", "utf-8"
    import numpy as np
    if ctx.choose([True, False], name + " matrices"):
        p.correlation_matrix, p.chi2_matrix = np.full((len(cols), len(cols)), np.nan), np.full((len(cols), len(cols)), np.nan)
    return p


def profiles(ctx):
    """StructuredProfiler.__add__ over parts whose + is under contract (two columns)"""
    pb = p07.mod()
    pb.HyperLogLog = Sketch
    o = env().profiler_options.StructuredOptions()
    o.data_labeler.is_enabled = False
    hll = ctx.choose([False, True], "row sketch")
    o.row_statistics.unique_count.hashing_method = "hll" if hll else "full"
    o.correlation.is_enabled = ctx.choose([False, True], "correlation")
    o.chi2_homogeneity.is_enabled = ctx.choose([False, True], "chi2")
    o.null_replication_metrics.is_enabled = False
    pb.StructuredProfiler._update_chi2 = lambda s: None
    a = profile(ctx, pb, "first", o, ("x", "y"), 2)
    b = profile(ctx, pb, "second", o, ctx.choose([("x", "y"), ("y", "x")], "order of columns"), 2)
    snaps = [(w, heap.snapshot({w: x})) for w, x in (("first", a), ("second", b))]
    r = a + b
    ctx.alive()
    ctx.run.cover("merged")
    for w, s in snaps:
        frame(ctx, w, s)
    apart(ctx, r, snaps)
    ctx.prove_eq("rows add up", r.total_samples, a.total_samples + b.total_samples)
    ctx.prove_eq("rows with a null add up", r.row_has_null_count, a.row_has_null_count + b.row_has_null_count)
    ctx.prove_eq("null rows add up", r.row_is_null_count, a.row_is_null_count + b.row_is_null_count)
    if not hll:
        ctx.prove("row hashes of both", set(r.hashed_row_object) == {"first", "second"})
    for c in ("x", "y"):
        i, = r._col_name_to_idx[c]
        q = r._profile[i].of()
        ctx.prove("each column is the merge of the columns of its name", len(q) == 2 and q[0].name == q[1].name == c)


PROOFS = {
    "merge of profiles": (profiles, {"covers": ["merged"]}),
    "merge of float columns": (within(lambda c: columns.history("float", True, columns.NOHIST, None, "merge"), col("float")), {"covers": ["merged"]}),
    "merge of int columns": (within(lambda c: columns.history("int", True, columns.NOHIST, None, "merge"), col("int")), {"covers": ["merged"]}),
    "merge of text columns": (within(lambda c: columns.history("text", True, columns.NOHIST + ("min", "max"), None, "merge"), col("text")), {"covers": ["merged"]}),
    "merge of date columns": (within(lambda c: p02.dates(c, "merge"), cls("datetime_column_profile", "DateTimeColumn")), {"covers": ["merged"]}),
    "merge of order columns": (within(p05.merge(True), cls("order_column_profile", "OrderColumn")), {"covers": ["merged"]}),
    "merge of order columns of text": (within(p05.merge(False), cls("order_column_profile", "OrderColumn")), {"covers": ["merged"]}),
    "merge of categorical columns": (within(p06.merge, cls("categorical_column_profile", "CategoricalColumn")), {"covers": ["merged"]}),
    "merge of column profiles": (within(p07.merge, cls("profile_builder", "StructuredColProfiler")), {"covers": ["merged"]}),
    "merge of compilers": (compilers, {"covers": ["merged"]}),
}
for _k in ("float", "int", "text"):
    for _b in (("auto", "two") if _k == "float" else ("auto",)):
        PROOFS[f"merge of {_k} histograms, {_b} bins"] = (within(lambda c, k=_k, b=_b: p03.hist_merge(c, k, b), col(_k)), {"covers": ["merged"], "weight": 3})
ASSUMPTIONS = ["run times and the lazily filled histogram caches (histogram_methods, histogram_selection) are not part of a profile's state: they are "
               "recomputed on demand and P03 proves what is reported from them",
               "options objects and data labelers are shared on purpose and are not counted as state",
               "the profile-level merge is exercised with two columns; parts (columns, sketches) by the contract proved of each + here"]
TRUSTED = ["HyperLogLog.merge changes only its receiver (assumed contract; runtime contract 'merging profiles' exercises it)"]
BOUNDED = ["count-min-sketch categories, text profiles, label columns, correlation, null replication; later updates of result and operands; "
           "reports, diffs and the data and options given: seeded runtime contracts"]

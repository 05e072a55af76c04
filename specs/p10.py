"""P10: encoding a profile (real encoder), the JSON contract, and decoding it (real load_from_dict) give the same state."""
from __future__ import annotations

import collections
import datetime
import types

import numpy as np
import pandas as pd
import z3

from dv import keymaps, sets
from dv.arrays import SymArray
from dv.core import Ctx, Sym, SymBool, SymNum, SymStr, Unsupported, need, is_sym, isnan, num_expr
from dv.env import env
from dv.keymaps import KeyMap
from dv.sets import IntSet
from . import columns, p02, p03, p05, p06, p07
from .columns import column_class, make_column, Batch

DERIVED = {"times", "metadata"}


# ------------------------------------------------------------------ contract of json.dumps / json.loads
def json_key(k):
    if isinstance(k, str):
        return k
    if k is None or isinstance(k, bool):
        return {None: "null", True: "true", False: "false"}[k]
    if isinstance(k, (int, float)) and not isinstance(k, np.generic):
        return str(k)
    if isinstance(k, (SymNum, Sym)):
        Ctx.cur.stop(Unsupported("symbolic key in JSON"))
    raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")


def through_json(x, enc):
    """what json.loads(json.dumps(x, cls=ProfileEncoder)) yields"""
    if isinstance(x, SymStr) or getattr(x, "_dv_text", False):
        return x
    if x is None or isinstance(x, (str, bool, int, float)) and not isinstance(x, np.generic) or isinstance(x, np.float64):
        return float(x) if isinstance(x, np.float64) else x
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return SymNum(x.e, x.kind, False)
    if isinstance(x, KeyMap):
        if x.native:
            Ctx.cur.stop(Unsupported("mixed map in JSON"))
        return KeyMap(x.has, x.val, None, x.name + ".json")
    if isinstance(x, SymArray) and x.flavour in ("list", "tuple"):
        return through_array(x, "list")
    if isinstance(x, IntSet) and x.rep_type is list:
        return IntSet(x.arr, x.name + ".json")
    if isinstance(x, dict):
        return {json_key(k): through_json(v, enc) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [through_json(v, enc) for v in x]
    return through_json(enc.default(x), enc)


def through_array(x, flavour):
    a = SymArray(x.n, x._at, x.kind, x.total, x.nonneg, x.integral, x.asc, flavour, x.name + ".json", x.psum, npy=False)
    return a


# ------------------------------------------------------------------ equality of states
def alike(ctx, what, a, b):
    if a is b:
        return
    if isinstance(a, KeyMap) or isinstance(b, KeyMap):
        if not (isinstance(a, KeyMap) and isinstance(b, KeyMap)):
            x, y = ((v.native if v.concrete() else None) if isinstance(v, KeyMap) else v for v in (a, b))
            ctx.prove(f"{what}: the same counts", isinstance(x, dict) and isinstance(y, dict) and x == y)
            return
        k = z3.Const("k", keymaps.K)
        ctx.prove(f"{what}: the same keys and counts", z3.ForAll([k], z3.And(z3.Select(a.has, k) == z3.Select(b.has, k),
                  z3.Implies(z3.Select(a.has, k), z3.Select(a.val, k) == z3.Select(b.val, k)))))
        ctx.prove(f"{what}: absent keys count 0 as before", a.default_factory is None or b.default_factory is a.default_factory)
        return
    if isinstance(a, IntSet) or isinstance(b, IntSet):
        if not (isinstance(a, IntSet) and isinstance(b, IntSet)):
            ctx.prove(f"{what}: still a set", False)
            return
        x = z3.Int("x")
        ctx.prove(f"{what}: still a set", a.rep_type is b.rep_type)
        ctx.prove(f"{what}: the same elements", z3.ForAll([x], a.has(x) == b.has(x)))
        return
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        if not (isinstance(a, SymArray) and isinstance(b, SymArray)):
            ctx.prove(f"{what}: still an array", False)
            return
        i = ctx.fresh("i", z3.IntSort())
        ctx.prove(f"{what}: still an array", a.flavour == b.flavour)
        ctx.prove(f"{what}: as long", a.n == b.n)
        ctx.prove(f"{what}: the same elements", z3.Implies(z3.And(i >= 0, i < a.n), a._at(i) == b._at(i)))
        return
    if isinstance(a, Stamp) or isinstance(b, Stamp):
        ctx.prove(f"{what}: the same time", a.e == b.e if isinstance(a, Stamp) and isinstance(b, Stamp) else False)
        return
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        ea, eb = (v.e if isinstance(v, SymBool) else z3.BoolVal(bool(v)) for v in (a, b))
        ctx.prove(f"{what}: the same", ea == eb)
        return
    if is_sym(a) or is_sym(b):
        if a is None or b is None:
            ctx.prove(f"{what}: the same", False)
        else:
            ctx.prove_eq(f"{what}: the same", b, a)
        return
    if isinstance(a, dict):
        ctx.prove(f"{what}: still a dictionary", isinstance(b, dict) and (not isinstance(a, collections.defaultdict) or
                  isinstance(b, collections.defaultdict) and a.default_factory is b.default_factory))
        if isinstance(b, dict):
            ctx.prove(f"{what}: the same keys", list(a) == list(b) and [type(k) for k in a] == [type(k) for k in b])
            for k in a:
                if k in b:
                    alike(ctx, f"{what}[{k!r}]", a[k], b[k])
        return
    if isinstance(a, (list, tuple)):
        ctx.prove(f"{what}: still a {type(a).__name__}", type(a) is type(b) and len(a) == len(b))
        if isinstance(b, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                alike(ctx, f"{what}[{i}]", x, y)
        return
    if isinstance(a, (set, frozenset)):
        ctx.prove(f"{what}: the same set", type(a) is type(b) and a == b)
        return
    if isinstance(a, np.ndarray) and a.dtype != object:
        ctx.prove(f"{what}: the same array", isinstance(b, np.ndarray) and a.shape == b.shape and
                  all(x == y or x != x and y != y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())))
        return
    if isinstance(a, (float, np.floating)) and a != a:
        ctx.prove(f"{what}: still undefined", isnan(b))
        return
    if callable(a) and hasattr(a, "__func__"):
        a = a.__func__
    if isinstance(a, types.FunctionType):
        g = getattr(b, "__func__", b)
        ctx.prove(f"{what}: the same function", g is a or getattr(g, "__qualname__", 0) == a.__qualname__ and g.__code__ is a.__code__)
        return
    if (type(a).__module__ or "").startswith("dataprofiler") and hasattr(a, "__dict__"):
        same_state(ctx, what, a, b)
        return
    if getattr(a, "__name__", None) == "float64" or a is str:      # the type of the stored values
        ctx.prove(f"{what}: the same type", getattr(b, "__name__", None) == a.__name__)
        return
    if isinstance(a, bool) or a is None or isinstance(a, (str, type)):
        ctx.prove(f"{what}: the same", a is b or type(a) is type(b) and a == b)
        return
    ctx.prove(f"{what}: the same", bool(a == b))


def same_state(ctx, what, a, b):
    ctx.prove(f"{what}: the same class", type(a) is type(b))
    if type(a) is not type(b):
        return
    da, db = vars(a), vars(b)
    ctx.prove(f"{what}: the same attributes", set(da) == set(db))
    for k in da:
        if k in db and k not in DERIVED:
            alike(ctx, f"{what}.{k}", da[k], db[k])


# ------------------------------------------------------------------ harnesses
def coders():
    E = env()
    enc, dec = E.mod("profilers.json_encoder"), E.mod("profilers.json_decoder")
    return enc.ProfileEncoder(), dec


def roundtrip(ctx, what, x, load="load_column_profile"):
    enc, dec = coders()
    from dv import heap
    before = heap.snapshot({what: x})
    j = through_json(x, enc)
    ctx.alive()
    bad = [p for (o, p, c) in before.nodes.values() if heap.content(o) != c]
    ctx.prove(f"{what}: saving changes nothing", not bad)
    y = need(dec, load)(j)
    ctx.alive()
    ctx.run.cover("loaded")
    same_state(ctx, what, x, y)
    return y


def numeric(kind):
    """all scalar statistics: the state after any batch, with every attribute the proof of P01 does not rely on made arbitrary"""
    def run(ctx):
        off = columns.NOHIST if kind != "text" else columns.NOHIST + ("min", "max")
        b = Batch(kind, "b")
        c = make_column(kind, off=off)
        if ctx.choose([True, False], "has data"):
            c.update(b.series)
            for k, v in list(vars(c).items()):
                if isinstance(v, SymNum):
                    vars(c)[k] = SymNum(ctx.fresh(k, z3.RealSort()), v.kind, v.npy)
            c._batch_history = []
        roundtrip(ctx, kind + " column", c)
    return run


def histogram(kind, bins):
    def run(ctx):
        c, _ = p03.arbitrary_column(ctx, kind, bins, "c")
        roundtrip(ctx, kind + " column with a histogram", c)
    return run


def order(numeric):
    def run(ctx):
        c, _ = p05.state(ctx, "c", numeric)
        roundtrip(ctx, "order column", c)
    return run


def category(ctx):
    pu, cc = p06.mods()
    c = p06.Counts(ctx, "seen")
    col = p06.column(ctx, cc, "c", c, p06.Stop(ctx, "options"), ctx.choose([False, True], "stopped"))
    roundtrip(ctx, "categorical column", col)


# ------------------------------------------------------------------ dates
class Stamp(Sym):
    """a time stamp; contract: pd.Timestamp(t.isoformat()) == t"""
    rep_type = pd.Timestamp

    def __init__(self, e):
        self.e = e

    def isoformat(self):
        return Iso(self.e)

    def __eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, Stamp) else False

    __hash__ = None


class Iso(Sym):
    rep_type = str
    _dv_text = True

    def __init__(self, e):
        self.e = e


class _Pandas:
    def __getattr__(self, n):
        return getattr(pd, n)

    @staticmethod
    def Timestamp(x):
        if isinstance(x, (Iso, Stamp)):
            return Stamp(x.e)
        return pd.Timestamp(x)


def date(ctx):
    m = env().mod("profilers.datetime_column_profile")
    m.pd = _Pandas()
    c = m.DateTimeColumn("c")
    c.sample_size, c.match_count = p07.num(ctx, "rows", 0), p07.num(ctx, "matches", 0)
    c.date_formats = ctx.choose([[], ["%Y-%m-%d"], ["%m/%d/%y", "%Y"]], "formats")
    if ctx.choose([True, False], "has dates"):
        c.min, c.max = "1/2/03", "2/3/04"
        c._dt_obj_min, c._dt_obj_max = Stamp(ctx.fresh("earliest", z3.RealSort())), Stamp(ctx.fresh("latest", z3.RealSort()))
    roundtrip(ctx, "date column", c)


# ------------------------------------------------------------------ compilers, column profiles, profiles
def compiler(ctx, name, which=None, all_=True):
    """a compiler over columns that hold data (the columns' own state: the harnesses above)"""
    m = env().mod("profilers.column_profile_compilers")
    which = which or ctx.choose(["ColumnPrimitiveTypeProfileCompiler", "ColumnStatsProfileCompiler"], "compiler")
    C = getattr(m, which)
    c = C()
    c.name = name
    for p in C._profilers:
        if p.type == "data_labeler" or not (all_ or ctx.choose([True, False], p.type)):
            continue
        c._profiles[p.type] = p(name)
        if p.type != "order":
            c._profiles[p.type].sample_size = p07.num(ctx, f"rows seen by {p.type}", 0)
    return c


def compilers(ctx):
    roundtrip(ctx, "compiler", compiler(ctx, ctx.choose(["c", 3], "name"), all_=False), "load_compiler")


def column_profile(ctx, name="c", plain=False):
    pb = p07.mod()
    o = env().profiler_options.StructuredOptions()
    nv = {"": 0, "nan": __import__("re").IGNORECASE} if plain else ctx.choose([{}, {"": 0, "nan": __import__("re").IGNORECASE}], "null values")
    if plain or ctx.choose([False, True], "empty"):
        c = pb.StructuredColProfiler(options=o)
        c.name = name
        c.sample_size = p07.num(ctx, f"rows {name}", 0)
    else:
        c = p07.state(ctx, pb, "seen", ctx.choose([True, False], "whole-number row labels"))
        c.options = o
        c.name = name
        c._index_shift = ctx.choose([None, p07.num(ctx, "shift")], "shift")
    c._null_values = nv
    c.sample = ["1", "x"]
    c.profiles = {} if plain or ctx.choose([True, False], "no statistics") else {
        "data_type_profile": compiler(ctx, name, "ColumnPrimitiveTypeProfileCompiler"),
        "data_stats_profile": compiler(ctx, name, "ColumnStatsProfileCompiler")}
    return c


def column_profiles(ctx):
    p07.mod()
    roundtrip(ctx, "column profile", column_profile(ctx, ctx.choose(["c", 3], "name")), "load_structured_col_profiler")


def profile(ctx):
    """two columns; names, row hashes, metrics and matrices"""
    pb = p07.mod()
    o = env().profiler_options.StructuredOptions()
    o.data_labeler.is_enabled = False
    p = pb.StructuredProfiler(None, options=o)
    names = ctx.choose([("x", "y"), (0, 1), ("0", "1"), ("x", "x"), ("x", 1)], "names")
    p._profile = [column_profile(ctx, n, True) for n in names]
    for i, n in enumerate(names):
        p._col_name_to_idx[n].append(i)
    p.total_samples = p07.num(ctx, "rows", 0)
    p.row_has_null_count, p.row_is_null_count = p07.num(ctx, "rows with null", 0), p07.num(ctx, "null rows", 0)
    p.hashed_row_object = ctx.choose([{}, {2 ** 63 + 5: True, 7: True}], "row hashes")
    p.correlation_matrix = ctx.choose([None, np.array([[1.0, np.nan], [np.nan, 1.0]])], "correlation")
    p.chi2_matrix = ctx.choose([None, np.array([[1.0, 0.25], [0.25, 1.0]])], "chi2")
    p._null_replication_metrics = ctx.choose([None, {}, {1: {"class_prior": [0.25, 0.75], "class_sum": [[1.0], [2.0]], "class_mean": [[0.5], [0.75]]}}], "null metrics")
    p._sampling_ratio = p07.num(ctx, "ratio", 0)
    p.encoding, p.file_type = ctx.choose([(None, None), ("utf-8", "csv")], "file")
    roundtrip(ctx, "profile", p, "load_profiler")


PROOFS = {f"{k} column": (numeric(k), {"covers": ["loaded"]}) for k in ("float", "int", "text")}
for _k, _b in (("float", "auto"), ("float", "two"), ("int", "auto"), ("text", "auto")):
    PROOFS[f"{_k} column with histogram, {_b} bins"] = (histogram(_k, _b), {"covers": ["loaded"]})
PROOFS["order column of numbers"] = (order(True), {"covers": ["loaded"]})
PROOFS["order column of text"] = (order(False), {"covers": ["loaded"]})
PROOFS["categorical column"] = (category, {"covers": ["loaded"]})
PROOFS["date column"] = (date, {"covers": ["loaded"]})
PROOFS["compiler"] = (compilers, {"covers": ["loaded"]})
PROOFS["column profile"] = (column_profiles, {"covers": ["loaded"]})
PROOFS["profile"] = (profile, {"covers": ["loaded"]})
ASSUMPTIONS = ["json.dumps/json.loads by contract (finite and non-finite numbers, texts, lists, dictionaries with text keys come back; keys that are not texts become texts)",
               "pd.Timestamp(t.isoformat()) == t", "run times are not part of the state compared"]
TRUSTED = ["json, pandas.Timestamp"]
BOUNDED = ["pickle, count-min sketches, labelers, reports before and after, later updates and merges of a loaded profile: seeded runtime contracts"]

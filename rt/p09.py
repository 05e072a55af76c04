"""Runtime contracts of P09: merging, reporting and profiling leave their inputs alone."""
import copy
import datetime
import types

from dataprofiler.profilers import CategoricalColumn, DateTimeColumn, FloatColumn, IntColumn, OrderColumn, TextColumn
from dataprofiler.profilers import profiler_options
from .lib import *
from .p08 import KINDS, vals

SHARED = (types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType, type, profiler_options.BaseOption, np.random.Generator,
          np.random.RandomState)
ATOM = (int, float, str, bytes, bool, type(None), complex, np.generic, datetime.datetime, datetime.timedelta, frozenset, range)


def is_shared(x):
    m = type(x).__module__ or ""
    return isinstance(x, SHARED) or ".labelers" in m or m.startswith(("tensorflow", "re", "_thread", "logging"))


def freeze(x, seen=None, skip=("times", "histogram_selection", "histogram_methods")):
    """the whole state of an object, as a value (run times and the lazily filled histogram caches left out: they are not observable)"""
    seen = {} if seen is None else seen
    if isinstance(x, (float, np.floating)) and x != x:
        return "nan"
    if isinstance(x, ATOM):
        return (type(x).__name__, x) if not isinstance(x, (np.generic, bool)) else (type(x).__name__, repr(x))
    if id(x) in seen:
        return ("ref", seen[id(x)])
    seen[id(x)] = len(seen)
    if is_shared(x):
        return ("shared", id(x))
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, repr(x.tolist()))
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return (type(x).__name__, repr(x.values.tolist()), repr(list(x.index)))
    if isinstance(x, dict):
        return (type(x).__name__, [(freeze(k, seen), freeze(v, seen)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, seen) for v in x])
    if isinstance(x, set):
        return ("set", sorted(repr(freeze(v, seen)) for v in x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, [(k, freeze(v, seen)) for k, v in sorted(vars(x).items()) if k not in skip])
    return ("opaque", repr(x))


def mutables(x, out=None, path="", skip=()):
    """every mutable object reachable, with a path to it"""
    out = {} if out is None else out
    if isinstance(x, ATOM) or is_shared(x) or id(x) in out:
        return out
    if not isinstance(x, tuple):
        out[id(x)] = (path or "itself", x)
    if isinstance(x, dict):
        for k, v in x.items():
            mutables(v, out, f"{path}[{k!r}]", skip)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            mutables(v, out, f"{path}[{i}]", skip)
    elif not isinstance(x, (set, np.ndarray, pd.DataFrame, pd.Series)) and hasattr(x, "__dict__"):
        for k, v in vars(x).items():
            if k not in skip:
                mutables(v, out, f"{path}.{k}", skip)
    return out


def differs(a, b, path=""):
    """where two frozen states differ"""
    if type(a) is not type(b) or isinstance(a, (tuple, list)) and len(a) != len(b):
        return f"{path}: {str(a)[:80]} -> {str(b)[:80]}"
    if isinstance(a, (tuple, list)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                nm = x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else i
                return differs(x, y, f"{path}/{nm}")
    return f"{path}: {str(a)[:80]} -> {str(b)[:80]}"


def untouched(what, obj, before):
    now = freeze(obj)
    return None if now == before else f"{what} changed at {differs(before, now)}"


def apart(c, *ops, skip=()):
    m = mutables(c, skip=skip)
    for n, o in zip(("first", "second"), ops):
        for i, (p, x) in mutables(o, skip=skip).items():
            if i in m:
                return f"the result's {m[i][0]} is the {n} operand's {p}"
    return None


def without_times(f):
    if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], tuple) and f[0] == ("str", "times"):
        return None
    if isinstance(f, (tuple, list)):
        return type(f)(without_times(x) for x in f)
    return f


# ------------------------------------------------------------------ columns
def gen_col(rng, i):
    k = rng.choice(sorted(KINDS))
    return {"c": rng.choice(KINDS[k]).__name__, "v": [vals(rng, k)[:40] for _ in range(4)], "looks": [rng.random() < .5 for _ in range(3)],
            "cms": rng.random() < .25, "prof": rng.random() < .3}


def chk_col(p):
    import dataprofiler.profilers as P
    cls = getattr(P, p["c"])

    def mk():
        if cls is CategoricalColumn and p["cms"]:
            o = profiler_options.CategoricalOptions()
            o.cms, o.cms_confidence, o.cms_relative_error, o.cms_max_num_heavy_hitters = True, .9, .1, 4
            return cls("c", o)
        return cls("c")

    def up(c, v):
        with quiet():
            if v:
                s = pd.Series(v, dtype=object)
                b = freeze(s)
                c.update(s)
                if freeze(s) != b:
                    raise AssertionError("update changed the data given")

    def look(c):
        with quiet():
            c.profile
            c.report()
            if c.sample_size:
                c.diff(c)
    a, b = mk(), mk()
    up(a, p["v"][0])
    up(b, p["v"][1])
    for c, l in ((a, p["looks"][0]), (b, p["looks"][1])):
        if l:
            look(c)
    fa, fb = freeze(a), freeze(b)
    with quiet():
        c = a + b
    for r in (untouched("merge: first operand", a, fa), untouched("merge: second operand", b, fb), apart(c, a, b)):
        if r:
            return f"{cls.__name__}: {r}"
    fc = freeze(c)
    up(c, p["v"][2])
    if p["looks"][2]:
        look(c)
    for r in (untouched("updating the result: first operand", a, fa), untouched("updating the result: second operand", b, fb)):
        if r:
            return f"{cls.__name__}: {r}"
    fc = freeze(c)
    up(a, p["v"][3])
    up(b, p["v"][2])
    r = untouched("updating the operands: the result", c, fc)
    if r:
        return f"{cls.__name__}: {r}"
    # an observation is not an operation: it changes no later observation
    with quiet():
        x = freeze(a.profile, skip=())
        a.diff(b) if a.sample_size and b.sample_size else None
        a + b
        if without_times(freeze(a.profile, skip=())) != without_times(x):
            return f"{cls.__name__}: observing changed the statistics"
    return None


# ------------------------------------------------------------------ profiles
def gen_prof(rng, i):
    ks = [rng.choice(sorted(KINDS)) for _ in range(rng.choice([1, 2, 3]))]

    def fr():
        n = rng.choice([1, 2, 5, 12, 30])
        out = []
        for k in ks:
            v = []
            while len(v) < n:
                v += vals(rng, k) + ([None, "nan", ""] if rng.random() < .4 else [])
            out.append(v[:n])
        return out
    return {"f": [fr() for _ in range(4)], "hll": rng.random() < .3, "corr": rng.random() < .4, "null": rng.random() < .3, "cms": rng.random() < .2, "looks": [rng.random() < .5 for _ in range(3)]}


def chk_prof(p):
    st = {"correlation.is_enabled": p["corr"], "null_replication_metrics.is_enabled": p["null"]}
    if p["hll"]:
        st["row_statistics.unique_count.hashing_method"] = "hll"
    if p["cms"]:
        st.update({"category.cms": True, "category.cms_confidence": .9, "category.cms_relative_error": .1, "category.cms_max_num_heavy_hitters": 4,
                   "chi2_homogeneity.is_enabled": False})

    def fr(k):
        return pd.DataFrame({f"c{j}": pd.Series(v, dtype=object) for j, v in enumerate(p["f"][k])})

    def prof(k):
        d = fr(k)
        b = freeze(d)
        r = profile(d, prof_options(**st))
        if freeze(d) != b or list(d.columns) != [f"c{j}" for j in range(len(p["f"][k]))]:
            raise AssertionError("profiling changed the data given")
        return r

    def up(x, k):
        d = fr(k)
        b = freeze(d)
        update(x, d)
        if freeze(d) != b:
            raise AssertionError("update_profile changed the data given")

    def look(x):
        with quiet():
            opt = {"output_format": "pretty", "omit_keys": ["data_stats.*.statistics.histogram"], "num_quantile_groups": 3}
            keep = copy.deepcopy(opt)
            x.report(opt)
            if opt != keep:
                raise AssertionError(f"report changed the options given: {keep} -> {opt}")
            opt["output_format"], keep["output_format"] = "compact", "compact"
            x.report(opt)
            if opt != keep:
                raise AssertionError(f"report changed the options given: {keep} -> {opt}")
            x.diff(x)
    try:
        a, b = prof(0), prof(1)
        for c, l in ((a, p["looks"][0]), (b, p["looks"][1])):
            if l:
                look(c)
        fa, fb = freeze(a), freeze(b)
        c = merge(a, b)
        for r in (untouched("merge: first operand", a, fa), untouched("merge: second operand", b, fb), apart(c, a, b)):
            if r:
                return r
        up(c, 2)
        if p["looks"][2]:
            look(c)
        for r in (untouched("updating the result: first operand", a, fa), untouched("updating the result: second operand", b, fb)):
            if r:
                return r
        fc = freeze(c)
        up(a, 3)
        up(b, 2)
        r = untouched("updating the operands: the result", c, fc)
        if r:
            return r
        with quiet():
            x = without_times(freeze(a.report()))
            look(a)
            a.diff(b)
            merge(a, b)
            if without_times(freeze(a.report())) != x:
                return "observing a profile changed its report"
    except AssertionError as e:
        return str(e)
    return None


# ------------------------------------------------------------------ text profiles
def gen_un(rng, i):
    ws = ["the", "cat", "Cat", "sat", "on", "mat", "dog", "x1", "hello", "b", "", "nan"]
    return {"v": [[" ".join(rng.choice(ws) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 6))] for _ in range(4)], "looks": [rng.random() < .5 for _ in range(3)]}


def chk_un(p):
    def prof(v):
        s = pd.Series(v, dtype=object)
        b = freeze(s)
        with quiet():
            r = dp.Profiler(s, profiler_type="unstructured", options=prof_options())
        if freeze(s) != b:
            raise AssertionError("profiling changed the data given")
        return r

    def look(x):
        with quiet():
            opt = {"output_format": "compact", "omit_keys": ["global_stats.memory_size"]}
            x.report(opt)
            if opt["omit_keys"] != ["global_stats.memory_size"]:
                raise AssertionError("report changed the options given")
            x.diff(x)
    try:
        a, b = prof(p["v"][0]), prof(p["v"][1])
        for c, l in ((a, p["looks"][0]), (b, p["looks"][1])):
            if l:
                look(c)
        fa, fb = freeze(a), freeze(b)
        c = merge(a, b)
        for r in (untouched("merge: first operand", a, fa), untouched("merge: second operand", b, fb), apart(c, a, b)):
            if r:
                return r
        with quiet():
            c.update_profile(pd.Series(p["v"][2], dtype=object))
        if p["looks"][2]:
            look(c)
        for r in (untouched("updating the result: first operand", a, fa), untouched("updating the result: second operand", b, fb)):
            if r:
                return r
        fc = freeze(c)
        with quiet():
            a.update_profile(pd.Series(p["v"][3], dtype=object))
        return untouched("updating the operands: the result", c, fc)
    except AssertionError as e:
        return str(e)


CHECKS = {"merging columns": (gen_col, chk_col), "merging profiles": (gen_prof, chk_prof), "merging text profiles": (gen_un, chk_un)}

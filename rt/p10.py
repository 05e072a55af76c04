"""Runtime contracts of P10: a saved profile, loaded again, is the same profile."""
import json
import os
import tempfile

from dataprofiler.profilers import CategoricalColumn, profiler_options
from dataprofiler.profilers.json_decoder import load_column_profile
from dataprofiler.profilers.json_encoder import ProfileEncoder
from .lib import *
from .p08 import KINDS, vals
from .p09 import differs, freeze, untouched, without_times

UNORDERED = {"samples", "times", "sample"}


def plain(x, path=()):
    """a report as a value: numbers by value (4 != 4.5, NaN == NaN), sets and arrays by content, sample rows left out"""
    if isinstance(x, dict):
        return {str(k): plain(v, path + (k,)) for k, v in x.items() if k not in UNORDERED}
    if isinstance(x, np.ndarray):
        return plain(x.tolist(), path)
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v, path) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [plain(v, path) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return "nan" if x != x else float(x)
    return str(x) if not isinstance(x, str) and x is not None else x


def unlike(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}/{k} only {'before' if k in a else 'after'}"
            r = unlike(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        if list(a) != list(b):
            return f"{path}: order of keys {list(a)[:6]} -> {list(b)[:6]}"
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((r for i, (x, y) in enumerate(zip(a, b)) for r in [unlike(x, y, f"{path}[{i}]")] if r), None)
    if isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-9 * max(1, abs(a)):
        return None
    return None if a == b else f"{path}: {str(a)[:100]} -> {str(b)[:100]}"


def types_of(x, path="", out=None):
    """the container types of a state, by path"""
    out = {} if out is None else out
    if isinstance(x, dict):
        out[path] = type(x).__name__
        for k, v in x.items():
            types_of(v, f"{path}[{k!r}]", out)
    elif isinstance(x, (set, list, np.ndarray)):
        out[path] = type(x).__name__
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("dataprofiler.profilers"):
        out[path] = type(x).__name__
        for k, v in vars(x).items():
            if k not in ("options", "times", "metadata"):
                types_of(v, f"{path}.{k}", out)
    return out


# ------------------------------------------------------------------ columns
def gen_col(rng, i):
    k = rng.choice(sorted(KINDS))
    return {"c": rng.choice(KINDS[k]).__name__, "v": [vals(rng, k)[:40] for _ in range(3)], "look": rng.random() < .5, "merged": rng.random() < .3,
            "stop": rng.random() < .2}


def chk_col(p):
    import dataprofiler.profilers as P
    cls = getattr(P, p["c"])

    def mk(v):
        o = None
        if cls is CategoricalColumn and p["stop"]:
            o = profiler_options.CategoricalOptions()
            o.max_sample_size_to_check_stop_condition, o.stop_condition_unique_value_ratio = 3, .4
        c = cls("c", o)
        with quiet():
            if v:
                c.update(pd.Series(v, dtype=object))
        return c
    a, other = mk(p["v"][0]), mk(p["v"][1])
    with quiet():
        if p["merged"]:
            a = a + other
        if p["look"]:
            a.profile
        before = freeze(a)
        text = json.dumps(a, cls=ProfileEncoder)
    r = untouched(f"{p['c']}: saving", a, before)
    if r:
        return r
    with quiet():
        b = load_column_profile(json.loads(text))
        if type(b) is not type(a):
            return f"{p['c']} loaded as {type(b).__name__}"
        r = unlike(plain(a.profile), plain(b.profile)) or unlike(plain(a.report()), plain(b.report()))
        if r:
            return f"{p['c']}: the loaded column reports otherwise: {r}"
        ta, tb = types_of(a), types_of(b)
        r = next((f"{k} is a {ta.get(k)}, loaded as {tb.get(k)}" for k in ta if ta[k] != tb.get(k) and (ta[k], tb.get(k)) != ("dict", "defaultdict")), None)
        if r:
            return f"{p['c']}: {r}"
        if a.sample_size and other.sample_size:
            r = unlike(plain(a.diff(other)), plain(b.diff(other))) or unlike(plain(other.diff(a)), plain(other.diff(b)))
            if r:
                return f"{p['c']}: the loaded column differs from others otherwise: {r}"
        x, y = a + other, b + other
        r = unlike(plain(x.profile), plain(y.profile))
        if r:
            return f"{p['c']}: merging the loaded column gives otherwise: {r}"
        for c in (a, b):
            if p["v"][2]:
                c.update(pd.Series(p["v"][2], dtype=object))
        r = unlike(plain(a.profile), plain(b.profile))
    return f"{p['c']}: updating the loaded column gives otherwise: {r}" if r else None


# ------------------------------------------------------------------ profiles
def gen_prof(rng, i):
    ks = [rng.choice(sorted(KINDS)) for _ in range(rng.choice([1, 2, 3]))]
    ns = rng.choice([["a", "b", "c"], ["1", "2", "3"], [0, 1, 2], ["A b", "a", "Ä"], ["x", "x", "y"], ["name", "class", "data"], ["01", "1", "007"]])

    def fr():
        n = rng.choice([1, 2, 5, 12, 30])
        out = []
        for k in ks:
            v = []
            while len(v) < n:
                v += vals(rng, k) + ([None, "nan", ""] if rng.random() < .4 else [])
            out.append(v[:n])
        return out
    return {"n": ns[:len(ks)], "f": [fr() for _ in range(3)], "how": rng.choice(["json", "pickle"]), "hll": rng.random() < .25, "corr": rng.random() < .4,
            "null": rng.random() < .35, "ratio": rng.choice([.2, .5]), "merged": rng.random() < .3, "look": rng.random() < .4,
            "spu": rng.choice([None, None, 7]), "auto": rng.random() < .3}


def roundtrip(p, how, auto=False):
    """save and load through a file"""
    with tempfile.TemporaryDirectory() as d, quiet():
        f = os.path.join(d, "p")
        p.save(f, save_method=how)
        return dp.Profiler.load(f, load_method=None if auto else how)


def chk_prof(p):
    if p["how"] == "json" and p["hll"]:
        raise Skip()          # sketches have no JSON form
    st = {"correlation.is_enabled": p["corr"], "null_replication_metrics.is_enabled": p["null"], "*.sampling_ratio": p["ratio"]}
    if p["hll"]:
        st["row_statistics.unique_count.hashing_method"] = "hll"

    def fr(k):
        d = pd.concat([pd.Series(v, dtype=object) for v in p["f"][k]], axis=1)
        d.columns = p["n"]
        return d
    kw = {"samples_per_update": p["spu"]} if p["spu"] else {}
    a, other = profile(fr(0), prof_options(**st), **kw), profile(fr(1), prof_options(**st), **kw)
    if p["merged"]:
        a = merge(a, other)
    with quiet():
        if p["look"]:
            a.report()
    before = freeze(a)
    b = roundtrip(a, p["how"], p["auto"])
    r = untouched("saving: the profile", a, before)
    if r:
        return r
    if type(b) is not type(a):
        return f"loaded as {type(b).__name__}"
    for o in ("pretty", "compact", "serializable", "flat"):
        with quiet():
            r = unlike(plain(a.report({"output_format": o})), plain(b.report({"output_format": o})))
        if r:
            return f"{p['how']}: the loaded profile reports otherwise ({o}): {r}"
    with quiet():
        r = unlike(plain(a._null_replication_metrics), plain(b._null_replication_metrics), "null replication")
        if r:
            return f"{p['how']}: {r}"
        for k in ("_sampling_ratio", "_samples_per_update", "_min_true_samples"):
            if getattr(a, k, None) != getattr(b, k, None):
                return f"{p['how']}: {k} {getattr(a, k, None)} -> {getattr(b, k, None)}"
        n = 20000
        if a._get_sample_size(range(n)) != b._get_sample_size(range(n)):
            return f"{p['how']}: the loaded profile would sample {b._get_sample_size(range(n))} of {n} rows instead of {a._get_sample_size(range(n))}"
        if dict(a._col_name_to_idx) != dict(b._col_name_to_idx):
            return f"{p['how']}: columns {dict(a._col_name_to_idx)} -> {dict(b._col_name_to_idx)}"
        r = unlike(plain(a.diff(other)), plain(b.diff(other)))
        if r:
            return f"{p['how']}: the loaded profile differs from others otherwise: {r}"
        r = unlike(plain((a + other).report()), plain((b + other).report()))
        if r:
            return f"{p['how']}: merging the loaded profile gives otherwise: {r}"
        if p["spu"] is None:
            for x in (a, b):
                update(x, fr(2))
            r = unlike(plain(a.report()), plain(b.report())) or unlike(plain(a._null_replication_metrics), plain(b._null_replication_metrics), "null replication")
            if r:
                return f"{p['how']}: updating the loaded profile gives otherwise: {r}"
    c = roundtrip(b, p["how"])
    with quiet():
        r = unlike(plain(b.report()), plain(c.report()))
    return f"{p['how']}: saved and loaded twice: {r}" if r else None


# ------------------------------------------------------------------ text profiles
def gen_un(rng, i):
    ws = ["the", "cat", "Cat", "sat", "on", "mat", "dog", "x1", "hello", "b", "", "nan"]
    return {"v": [[" ".join(rng.choice(ws) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 6))] for _ in range(3)], "merged": rng.random() < .3}


def chk_un(p):
    def prof(v):
        with quiet():
            return dp.Profiler(pd.Series(v, dtype=object), profiler_type="unstructured", options=prof_options())
    a, other = prof(p["v"][0]), prof(p["v"][1])
    if p["merged"]:
        a = merge(a, other)
    before = freeze(a)
    b = roundtrip(a, "pickle")
    r = untouched("saving: the profile", a, before)
    if r:
        return r
    with quiet():
        r = unlike(plain(a.report()), plain(b.report())) or unlike(plain((a + other).report()), plain((b + other).report()))
        if r:
            return f"the loaded text profile behaves otherwise: {r}"
        for x in (a, b):
            x.update_profile(pd.Series(p["v"][2], dtype=object))
        r = unlike(plain(a.report()), plain(b.report()))
    return f"updating the loaded text profile gives otherwise: {r}" if r else None


CHECKS = {"saving profiles": (gen_prof, chk_prof), "saving columns": (gen_col, chk_col), "saving text profiles": (gen_un, chk_un)}

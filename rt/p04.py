"""Runtime contracts of P04: sampling."""
from .lib import *
from dataprofiler.profilers import profiler_utils as pu
from dataprofiler.profilers.profile_builder import StructuredColProfiler


def gen_shuffle(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 10, 17, 64, 100, 333])
    return {"n": n, "cs": rng.choice([1, 2, 3, 4, 7, max(1, n - 1), max(1, n), n + 1, 1000]), "seed": rng.choice([None, 0, rng.randint(0, 99)])}


@contextlib.contextmanager
def seeded(s):
    from dataprofiler import settings
    old = settings._seed
    try:
        if s is not None:
            dp.set_seed(s)
        else:
            settings._seed = None
        yield
    finally:
        settings._seed = old


def chk_shuffle(p):
    n, cs = p["n"], p["cs"]
    with seeded(p["seed"]):
        parts = [list(c) for c in pu.shuffle_in_chunks(n, cs)]
        again = [list(c) for c in pu.shuffle_in_chunks(n, cs)]
    if p["seed"] is not None and again != parts:
        return "the same seed gives another shuffle"
    flat = [int(x) for c in parts for x in c]
    if sorted(flat) != list(range(n)):
        return f"chunks of {n} rows by {cs} are not a permutation: {flat[:30]}"
    if any(len(c) != cs for c in parts[:-1]) or (parts and not 1 <= len(parts[-1]) <= cs):
        return f"chunk lengths {[len(c) for c in parts][:20]}, asked for {cs}"
    return None


def chk_partition(p):
    data = [f"r{k}" for k in range(p["n"])]
    parts = list(pu.partition(data, p["cs"]))
    if [x for c in parts for x in c] != data:
        return f"parts of {p['n']} by {p['cs']} do not concatenate to the data"
    if any(len(c) != p["cs"] for c in parts[:-1]) or any(not len(c) for c in parts):
        return f"part lengths {[len(c) for c in parts][:20]}, asked for {p['cs']}"
    return None


def index_of(rng, n):
    s = rng.choice(["range", "offset", "rev", "shuffled", "str", "sparse", "neg", "dup"])
    if s == "range":
        return list(range(n))
    if s == "offset":
        o = rng.choice([5, 1000, 4000, 10 ** 6])
        return list(range(o, o + n))
    if s == "rev":
        return list(range(n))[::-1]
    if s == "shuffled":
        r = list(range(n))
        rng.shuffle(r)
        return r
    if s == "str":
        r = [f"row{k}" for k in range(n)]
        rng.shuffle(r)
        return r
    if s == "sparse":
        return sorted(rng.sample(range(50 * n + 1), n))
    if s == "neg":
        return list(range(-n // 2, -n // 2 + n))
    return [k % max(1, n // 2) for k in range(n)]


def gen_clean(rng, i):
    n = rng.choice([1, 2, 3, 6, 10, 25, 60, 200])
    mt = rng.choice([0, 0, None, 1, 3, n // 2, n, n + 5])
    return {"n": n, "index": index_of(rng, n), "nulls": [rng.random() < rng.choice([0, .2, .7]) for _ in range(n)],
            "ss": rng.choice([1, 2, n // 3 + 1, max(1, n - 1), n, n + 3]), "mt": mt, "ids": rng.random() < .5,
            "word": rng.choice(["", "nan", "None", "--", "  "])}


NULLV = {"": 0, "nan": 0, "none": 0, "null": 0, "  *": 0, "--*": 0, "__*": 0}


def chk_clean(p):
    n, ss, mt = p["n"], p["ss"], p["mt"] or 0
    vals = [p["word"] if z else f"v{k}" for k, z in enumerate(p["nulls"])]
    ser = pd.Series(vals, index=p["index"], dtype=object)
    ids = None
    if p["ids"]:
        ids = np.array([list(c) for c in pu.shuffle_in_chunks(n, n)])
        if not mt:
            ids = np.array([sorted(ids[0][:ss])])
    with quiet():
        df, st = StructuredColProfiler.clean_data_and_get_base_stats(ser, ss, dict(NULLV), p["mt"], ids)
    got = list(df.values)
    if len(set(got)) != len(got):
        return "a row was sampled twice"
    if got != [v for v in vals if v in set(got)]:
        return "the sampled values are not in row order"
    if not set(got) <= {v for v, z in zip(vals, p["nulls"]) if not z}:
        return f"a null or a value not in the data was sampled: {got[:5]}"
    m, k = st["sample_size"], st["null_count"]
    if m - k != len(got):
        return f"{m} rows sampled, {k} null, {len(got)} values"
    nn = sum(len(v) for v in st["null_types"].values())
    if nn != k:
        return f"{nn} null positions listed, {k} nulls"
    labels = [p["index"][j] for j, z in enumerate(p["nulls"]) if z]
    if not set(x for v in st["null_types"].values() for x in v) <= set(labels):
        return "a row that is not null is listed as null"
    if mt == 0:
        if m != min(n, ss):
            return f"{m} rows sampled, {ss} asked of {n}"
    else:
        if m < min(n, ss) or m > n or (m < n and m % ss):
            return f"{m} rows sampled in chunks of {ss} from {n}"
        if len(got) < min(mt, n - sum(p["nulls"])):
            return f"{len(got)} true samples, at least {mt} asked, {n - sum(p['nulls'])} there"
    if n and not set(st["sample"]) <= set(got):
        return f"example values {st['sample']} are not sampled rows"
    if len(st["sample"]) != min(5, len(got)) or len(set(st["sample"])) != len(st["sample"]):
        return f"example values {st['sample']} of {len(got)}"
    return None


def gen_prof(rng, i):
    n = rng.choice([1, 2, 5, 12, 40, 150])
    nb = rng.choice([1, 1, 2, 3])
    return {"n": n, "ss": rng.choice([None, 1, 3, n // 2 + 1, n, n + 1]), "batches": nb, "seed": rng.choice([0, 7, 123]),
            "mt": rng.choice([0, 0, 0, 2]), "null": rng.choice([0, .3]), "style": rng.choice(["int", "sorted", "dec"]),
            "r": rng.randint(0, 10 ** 6), "off": rng.choice([0, 4000])}


def _strip(x):
    if isinstance(x, dict):
        return {str(k): _strip(v) for k, v in x.items() if k not in ("times",)}
    if isinstance(x, (list, tuple)):
        return [_strip(v) for v in x]
    if isinstance(x, set):
        return sorted(map(repr, x))
    if isinstance(x, np.ndarray):
        return _strip(x.tolist())
    return repr(x)


def chk_prof(p):
    import random
    rng = random.Random(p["r"])
    n = p["n"]
    dfs, at = [], p["off"]
    for b in range(p["batches"]):
        v = [as_row(rng, x) for x in numbers(rng, n, p["style"])]
        v = [None if rng.random() < p["null"] else x for x in v]
        d = frame({"a": v, "b": list(v), "id": [str(k) for k in range(at, at + n)]})
        d.index = range(at, at + n)
        at += n
        dfs.append(d)

    def once():
        with seeded(p["seed"]):
            pr = profile(dfs[0], samples_per_update=p["ss"], min_true_samples=p["mt"])
            for d in dfs[1:]:
                update(pr, d)
            return pr, pr.report({"output_format": "compact"})
    pr, r1 = once()
    want = p["batches"] * min(n, p["ss"] or n)
    for c in pr.profile:
        st = c.profile["statistics"]
        if not p["mt"] and st["sample_size"] != want:
            return f"column sample size {st['sample_size']}, expected {want}"
        if st["sample_size"] > n * p["batches"]:
            return f"column sample size {st['sample_size']} of {n * p['batches']} rows"
    if pr.total_samples != n * p["batches"]:
        return f"row count {pr.total_samples} of {n * p['batches']}"
    ids = pr.profile[2]
    st = ids.profile["statistics"]
    if st["unique_count"] != st["sample_size"]:
        return f"{st['sample_size']} samples of a key column, {st['unique_count']} distinct: a row was taken twice"
    if not set(ids.sample) <= {str(k) for k in range(p["off"], at)}:
        return f"example values {ids.sample}"
    if not p["mt"]:
        a, b = (_strip({k: v for k, v in pr.profile[j].profile.items() if k not in ("column_name", "samples")}) for j in (0, 1))
        for t in (a, b):
            t.get("statistics", {}).pop("times", None)
        if a != b:
            return "two equal columns were sampled differently"
    _, r2 = once()
    if _strip(r1) != _strip(r2):
        k = next(k for k in _strip(r1) if _strip(r1)[k] != _strip(r2)[k])
        return f"the same data and seed give another report ({k})"
    return None


CHECKS = {"shuffling in chunks": (gen_shuffle, chk_shuffle),
          "partition": (gen_shuffle, chk_partition),
          "column sampling": (gen_clean, chk_clean),
          "profiles of samples": (gen_prof, chk_prof)}

"""Runtime contracts of P12: characters, words and entities of text."""
import collections
import string

from .lib import *
from dataprofiler.profilers import TextColumn
from dataprofiler.profilers.unstructured_text_profile import TextProfiler
from dataprofiler.profilers.unstructured_labeler_profile import UnstructuredLabelerProfile
from dataprofiler.profilers.profiler_options import DataLabelerOptions, TextProfilerOptions

WORDS = ["cat", "Cat", "CAT", "dog", "The", "the", "a", "B", "b", "it's", "12", "x1", "ÄB", "äb", "no-one", "of", "Of", "Zed"]
PUNCT = ["", "", "", ".", ",", "!", "...", "'", "\"", "-", "(", ")"]
DEFAULT = None


def line(rng):
    ws = [rng.choice(PUNCT) + rng.choice(WORDS) + rng.choice(PUNCT) if rng.random() < .95 else rng.choice(["--", "...", "''"]) for _ in range(rng.randint(1, 6))]
    return rng.choice(["", "", " "]) + rng.choice([" ", "  ", "\t", "\n"]).join(ws)


def opts(s):
    o = TextProfilerOptions()
    o.is_case_sensitive = s["case"]
    if s["stop"] is not None:
        o.stop_words = list(s["stop"])
    o.top_k_chars, o.top_k_words = s["kc"], s["kw"]
    o.vocab.is_enabled, o.words.is_enabled = s["vocab"], s["words"]
    return o


def setting(rng):
    return {"case": rng.random() < .5, "stop": rng.choice([None, [], ["cat"], ["the", "b"], ["dog", "12", "zed"], ["cat", "the", "b", "of"]]), "kc": rng.choice([None, None, 1, 3]),
            "kw": rng.choice([None, None, 1, 2, 4]), "vocab": rng.random() < .9, "words": rng.random() < .9}


def default_stop():
    global DEFAULT
    if DEFAULT is None:
        DEFAULT = set(TextProfiler("x")._stop_words)
    return DEFAULT


def want_words(rows, case, stop):
    c = collections.Counter()
    for r in rows:
        for w in (r if case else r.lower()).split():
            w = w.strip(string.punctuation)
            if w and w.lower() not in stop:
                c[w] += 1
    return c


def top_ok(got, full, k):
    """got lists k of the most frequent entries"""
    n = len(full) if k is None else min(k, len(full))
    if len(got) != n or any(full.get(x) != c for x, c in got.items()):
        return False
    return sorted(got.values(), reverse=True) == sorted(full.values(), reverse=True)[:n]


def judge(t, chars, words, n, kc, kw, calc):
    pr = t.profile
    if t.sample_size != n:
        return f"{t.sample_size} lines counted, given {n}"
    chars = chars if calc["vocab"] else collections.Counter()
    words = words if calc["words"] else collections.Counter()
    if sorted(pr["vocab"]) != sorted(chars):
        return f"characters {sorted(pr['vocab'])}, are {sorted(chars)}"
    if dict(t.vocab_count) != dict(chars) or not top_ok(pr["vocab_count"], chars, kc):
        return f"character counts {dict(pr['vocab_count'])} (top {kc}), are {dict(chars)}"
    if sorted(pr["words"]) != sorted(words):
        return f"words {sorted(pr['words'])}, are {sorted(words)}"
    if dict(t.word_count) != dict(words) or not top_ok(pr["word_count"], words, kw):
        return f"word counts {dict(pr['word_count'])} (top {kw}), are {dict(words)}"
    return None


def gen_history(rng, i):
    xs = [line(rng) for _ in range(rng.choice([0, 1, 2, 4, 9]))]
    return {"t": tree(rng, split(rng, xs, rng.choice([1, 2, 3, 4]))), "s": setting(rng)}


def history(p):
    s = p["s"]
    t = build(p["t"], lambda: TextProfiler("x", options=opts(s)), lambda c, b: c.update(pd.Series(b, dtype=object)) and None)
    xs = rows(p["t"])
    stop = default_stop() if s["stop"] is None else set(s["stop"])
    if not s["vocab"] or not s["words"]:
        rep = t.report(remove_disabled_flag=True)
        if any((k in rep) != s[k] for k in ("vocab", "words")):
            return f"reported {sorted(rep)} with {s}"
    return judge(t, collections.Counter("".join(xs)), want_words(xs, s["case"], stop), len(xs), s["kc"], s["kw"], s)


def gen_mixed(rng, i):
    return {"parts": [{"rows": [line(rng) for _ in range(rng.choice([0, 1, 3, 5]))], "s": {**setting(rng), "vocab": True, "words": True}} for _ in range(rng.choice([2, 2, 3]))],
            "left": rng.random() < .5, "more": [line(rng) for _ in range(rng.choice([0, 0, 2]))]}


def mixed(p):
    """different settings: case insensitive unless all are sensitive, everybody's stop words left out"""
    ts = [TextProfiler("x", options=opts(q["s"])).update(pd.Series(q["rows"], dtype=object)) for q in p["parts"]]
    if p["left"]:
        t = ts[0]
        for u in ts[1:]:
            t = t + u
    else:
        t = ts[-1]
        for u in ts[-2::-1]:
            t = u + t
    if p["more"]:
        t.update(pd.Series(p["more"], dtype=object))
    case = all(q["s"]["case"] for q in p["parts"])
    stop = set()
    for q in p["parts"]:
        stop |= default_stop() if q["s"]["stop"] is None else set(q["s"]["stop"])
    xs = [r for q in p["parts"] for r in q["rows"]] + p["more"]

    def k(n):
        v = [q["s"][n] for q in p["parts"]]
        return None if None in v else max(v)
    return judge(t, collections.Counter("".join(xs)), want_words(xs, case, stop), len(xs), k("kc"), k("kw"), {"vocab": 1, "words": 1})


# ---------------------------------------------------------------- whole profiles
def gen_profile(rng, i):
    xs = [line(rng) if rng.random() < .75 else rng.choice(["", " ", "\t", "  \n"]) for _ in range(rng.choice([1, 2, 5, 9]))]
    return {"t": tree(rng, [b for b in split(rng, xs, rng.choice([1, 2, 3])) if b]), "case": rng.random() < .5, "as": rng.choice(["list", "series", "frame"]), "idx": rng.choice([0, 3, -2])}


def whole(p):
    def data(b):
        if p["as"] == "list":
            return b
        s = pd.Series(b, dtype=object, index=range(p["idx"], p["idx"] + len(b)))
        return s if p["as"] == "series" else s.to_frame("t")
    o = prof_options(**{"unstructured_options.text.is_case_sensitive": p["case"]})

    def upd(c, b):
        if c[0] is None:
            with quiet():
                c[0] = dp.Profiler(data(b), profiler_type="unstructured", options=o)
        else:
            update(c[0], data(b))

    class Box(list):
        def __add__(self, other):
            return Box([merge(self[0], other[0])])
    c = build(p["t"], lambda: Box([None]), upd)[0]
    xs = rows(p["t"])
    r = c.report()
    full = [x for x in xs if x.strip()]
    g = r["global_stats"]
    if g["samples_used"] != len(xs):
        return f"samples_used {g['samples_used']} of {len(xs)} lines"
    if g["empty_line_count"] != len(xs) - len(full):
        return f"empty_line_count {g['empty_line_count']}, are {len(xs) - len(full)}"
    t = r["data_stats"]["statistics"]
    w = want_words(full, p["case"], default_stop())
    if dict(t["vocab_count"]) != dict(collections.Counter("".join(full))) or sorted(t["vocab"]) != sorted(set("".join(full))):
        return f"character counts {dict(t['vocab_count'])}"
    if dict(t["word_count"]) != dict(w) or sorted(t["words"]) != sorted(w):
        return f"word counts {dict(t['word_count'])}, are {dict(w)}"
    if not set(c.sample) <= set(full) or len(c.sample) > 5:
        return f"example lines {c.sample}"
    mem = sum(len(x.encode("utf-8")) for x in xs) / 1024 ** 2
    if not close(g["memory_size"], mem, 1e-9, 1e-12):
        return f"memory_size {g['memory_size']}, is {mem}"


# ---------------------------------------------------------------- text columns
def gen_vocab(rng, i):
    xs = [line(rng) for _ in range(rng.choice([0, 1, 3, 6]))]
    return {"t": tree(rng, split(rng, xs, rng.choice([1, 2, 3])))}


def vocab(p):
    c = build(p["t"], lambda: TextColumn("x"), col_update)
    want = set("".join(rows(p["t"])))
    if sorted(c.vocab) != sorted(want) or sorted(c.profile["vocab"]) != sorted(want):
        return f"vocabulary {sorted(c.vocab)}, is {sorted(want)}"


# ---------------------------------------------------------------- entities
LABELS = ["PAD", "UNKNOWN", "NAME", "DATE", "ZIP"]


class Labeler:
    """a labeler whose prediction is a function of the text"""
    label_mapping = {l: i for i, l in enumerate(LABELS)}
    reverse_label_mapping = {i: l for i, l in enumerate(LABELS)}
    labels = LABELS

    def __init__(self, key, flat):
        self.key, self.flat = key, flat

    def of(self, text):
        k = self.key
        if self.flat:      # one label per word
            out = []
            for w in re_split(text):
                out += [1 + (k * len(w) + ord(w[0])) % 4] * len(w)
            return out
        return [1 + (ord(ch) * k // 7) % 4 for ch in text]

    def predict(self, data, **kw):
        return {"pred": [np.array(self.of(x)) for x in data]}

    def __eq__(self, other):
        return isinstance(other, Labeler) and (self.key, self.flat) == (other.key, other.flat)


SEP = (" ", ",", ";", "'", '"', ":", "\n", "\t", ".")


def re_split(text):
    import re
    return [w for w in re.split("([" + re.escape("".join(SEP)) + "])", text) if w]


def gen_entities(rng, i):
    xs = [line(rng) for _ in range(rng.choice([1, 2, 4]))]
    return {"t": tree(rng, [b for b in split(rng, xs, rng.choice([1, 2, 3]))]), "k": rng.randint(1, 30), "flat": rng.random() < .5}


def entities(p):
    lab = Labeler(p["k"], p["flat"])

    def mk():
        o = DataLabelerOptions()
        o.data_labeler_object = lab
        return UnstructuredLabelerProfile(options=o)
    c = build(p["t"], mk, lambda c, b: c.update(pd.Series(b, dtype=object)))
    xs = rows(p["t"])
    n = sum(map(len, xs))
    true = collections.Counter(LABELS[j] for x in xs for j in lab.of(x))
    got = {k: {a: b for a, b in v.items() if b} for k, v in c.profile["entity_counts"].items()}
    if got["true_char_level"] != dict(true):
        return f"character labels {got['true_char_level']}, are {dict(true)}"
    if sum(got["postprocess_char_level"].values()) != n or c.char_sample_size != n:
        return f"{sum(got['postprocess_char_level'].values())} post-processed characters of {n}"
    if c.word_sample_size != sum(got["word_level"].values()):
        return f"{c.word_sample_size} words, {sum(got['word_level'].values())} labelled"
    one = mk()
    one.update(pd.Series(xs, dtype=object))
    if xs and {k: {a: b for a, b in v.items() if b} for k, v in one.profile["entity_counts"].items()} != got:
        return f"entity counts {got} differ from those of one batch {one.profile['entity_counts']}"
    for lv, tot in (("word_level", c.word_sample_size), ("true_char_level", n), ("postprocess_char_level", n)):
        pc = c.profile["entity_percentages"][lv]
        for e, k in got[lv].items():
            if not close(pc[e], k / tot):
                return f"{lv} share of {e}: {pc[e]}, is {k}/{tot}"
        if sum(1 for v in pc.values() if v) != len(got[lv]):
            return f"{lv} shares {dict(pc)} of counts {got[lv]}"
    # spans the postprocessor must find: maximal runs of one label (words carry one label each, all longer than one character)
    return None


CHECKS = {"words and characters": (gen_history, history), "different settings": (gen_mixed, mixed), "profiles of text": (gen_profile, whole), "vocabulary of text columns": (gen_vocab, vocab),
          "entities": (gen_entities, entities)}

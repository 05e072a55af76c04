"""Runtime contracts of P14: labels belong to the characters and cells they are reported for."""
import collections
import re

from .lib import *
from dataprofiler.labelers import data_processing as dproc
from dataprofiler.labelers.regex_model import RegexModel
from dataprofiler.profilers import DataLabelerColumn
from dataprofiler.profilers.profiler_options import DataLabelerOptions

LABELS = ["PAD", "UNKNOWN", "NAME", "DATE", "ZIP"]
MAP = {l: i for i, l in enumerate(LABELS)}
ALPHA = "abcdeXYZ0123456789" + "äß漢"
BREAKS = " \n,;\t"


def text(rng, n):
    p = rng.choice([0, .05, .2, .5])
    return "".join(rng.choice(BREAKS) if rng.random() < p else rng.choice(ALPHA) for _ in range(n))


def texts(rng, hi):
    return [text(rng, rng.choice([0, 1, 2, rng.randint(0, hi), rng.randint(0, 3 * hi)])) for _ in range(rng.choice([1, 1, 2, 3, 6]))]


def lab(key, ch):
    return 1 if ch in BREAKS + "\x01" else 1 + (ord(ch) * 7 + key) % 4


def model(samples, key, conf):
    """a character model: one label per character of every sample"""
    out = {"pred": [], "conf": []}
    for s in samples:
        ls = [lab(key, ch) for ch in s]
        out["pred"].append(np.array(ls))
        c = np.zeros((len(ls), len(LABELS)))
        for i, (l, ch) in enumerate(zip(ls, s)):
            c[i, l], c[i, 0] = .75, ord(ch)
        out["conf"].append(c)
    if not conf:
        del out["conf"]
    return out


def pieces(pre, data, batch, limit):
    out = []
    bs = [[r[0] for r in b] for b in pre.process(data, batch_size=batch)]
    if any(len(b) != batch for b in bs[:-1]) or (bs and not 0 < len(bs[-1]) <= batch):
        return None, f"batches of {[len(b) for b in bs]} samples, asked for {batch}"
    out = [s for b in bs for s in b]
    if any(not 0 < len(s) <= limit for s in out):
        return None, f"samples of {[len(s) for s in out]} characters, at most {limit} allowed"
    return out, None


def gen_chars(rng, i):
    m = rng.choice([2, 3, 5, 8, 20])
    sep = rng.choice([" ", "\x01" * rng.randint(1, 3), ""])
    sep = sep if len(sep) < m else " "
    return {"x": texts(rng, m + 2), "max": m, "sep": sep, "flat": rng.choice([0, 1]), "cut": rng.random() < .4, "batch": rng.choice([1, 2, 3, 32]), "key": rng.randint(0, 9), "conf": rng.random() < .6,
            "enc": rng.random() < .3, "ner": rng.random() < .4}


def spans(ls):
    out, i = [], 0
    while i < len(ls):
        j = i
        while j < len(ls) and ls[j] == ls[i]:
            j += 1
        if ls[i] > 1:
            out.append((i, j, LABELS[ls[i]]))
        i = j
    return out


def chars(p):
    kw = dict(max_length=p["max"], flatten_split=p["flat"], flatten_separator=p["sep"], is_separate_at_max_len=p["cut"])
    data = np.array(p["x"], dtype=object)
    if p["enc"]:
        # character codes of the samples, padded with 0
        codes = {ch: k + 1 for k, ch in enumerate(sorted(set(ALPHA + BREAKS + "\x01")))}
        back = {v: k for k, v in codes.items()}
        samples = []
        for b in dproc.CharEncodedPreprocessor(encoding_map=codes, **kw).process(data, batch_size=p["batch"]):
            if b.shape[1] != p["max"]:
                return f"encoded samples of width {b.shape[1]}"
            for r in b:
                s = "".join(back.get(int(v), "\0") for v in r).rstrip("\0")
                if "\0" in s or not s:
                    return f"encoded sample {r.tolist()}"
                samples.append(s)
    else:
        samples, bad = pieces(dproc.CharPreprocessor(**kw), data, p["batch"], p["max"])
        if bad:
            return bad
    if not p["flat"] and "".join(samples) != "".join(p["x"]):
        return f"samples {samples} of {p['x']}"
    res = model(samples, p["key"], p["conf"])
    keep = [a.copy() for a in res["pred"]]
    post = dproc.CharPostprocessor(flatten_separator=p["sep"], output_format="NER" if p["ner"] else "character_argmax")
    out = post.process(data, res, MAP)
    if len(res["pred"]) != len(keep) or any(not np.array_equal(a, b) for a, b in zip(keep, res["pred"])):
        return "the model's predictions were changed"
    if len(out["pred"]) != len(data):
        return f"{len(out['pred'])} predictions of {len(data)} texts"
    for x, got in zip(p["x"], out["pred"]):
        want = [lab(p["key"], ch) for ch in x]
        if p["ner"]:
            if [tuple(e) for e in got] != spans(want):
                return f"entities {got} of {x!r}, are {spans(want)}"
        elif [int(v) for v in got] != want:
            return f"labels {list(got)} of {x!r}, are {want} (samples {samples})"
    if p["conf"]:
        for x, got in zip(p["x"], out["conf"]):
            if [int(r[0]) for r in got] != [ord(ch) for ch in x]:
                return f"confidences of other characters for {x!r}"


# ---------------------------------------------------------------- training labels
def gen_train(rng, i):
    q = gen_chars(rng, i)
    q["x"] = [x for x in q["x"] if x] or ["ab"]
    q["cell"] = rng.random() < .4
    return q


def train(p):
    sep = p["sep"]
    if p["cell"]:
        sep = sep or "\x01"
        pre = dproc.StructCharPreprocessor(max_length=max(p["max"], 2), flatten_separator=sep, is_separate_at_max_len=p["cut"])
        lim = max(p["max"], 2)
        cell = {x: 1 + (len(x) + p["key"]) % 4 for x in p["x"]}
        y = np.array([LABELS[cell[x]] for x in p["x"]])
        # the label of a cell's character: told apart by distinct characters per cell
        xs = [chr(0x4e00 + i) * len(x) for i, x in enumerate(p["x"])]
        own = {chr(0x4e00 + i): cell[x] for i, x in enumerate(p["x"])}
        data = np.array(xs)
    else:
        pre = dproc.CharPreprocessor(max_length=p["max"], flatten_split=p["flat"], flatten_separator=sep, is_separate_at_max_len=p["cut"])
        lim = p["max"]
        data = np.array(p["x"], dtype=object)
        y = np.empty(len(data), dtype=object)
        for i, x in enumerate(p["x"]):
            y[i] = spans([lab(p["key"], ch) for ch in x])
        own = None
    seen = 0
    for X, Y in pre.process(data, y, MAP, batch_size=p["batch"]):
        if Y.shape != (len(X), lim, len(LABELS)):
            return f"label tensor {Y.shape} for {len(X)} samples of at most {lim}"
        for (s,), ls in zip(X, Y):
            if not np.array_equal(ls.sum(axis=1), np.ones(lim)):
                return f"not one label per position: {ls.sum(axis=1).tolist()}"
            ls = ls.argmax(axis=1).tolist()
            want = [own.get(ch, 1) if own else lab(p["key"], ch) for ch in s] + [0] * (lim - len(s))
            if ls != want:
                return f"training labels {ls} of {s!r}, are {want}"
            seen += sum(1 for ch in s if ch not in BREAKS + "\x01")
    n = sum(1 for x in data for ch in x if ch not in BREAKS + "\x01")
    if seen != n:
        return f"{seen} characters in the samples, {n} given"


# ---------------------------------------------------------------- spans
def gen_spans(rng, i):
    return {"p": [[rng.randint(0, rng.choice([2, 4])) for _ in range(rng.choice([0, 1, 2, 5, 9]))] for _ in range(rng.choice([1, 1, 3]))]}


def ner(p):
    got = dproc.CharPostprocessor.convert_to_NER_format([np.array(x) for x in p["p"]], MAP, "UNKNOWN", "PAD")
    want = [spans(x) for x in p["p"]]
    if [[tuple(e) for e in s] for s in got] != want:
        return f"entities {got}, are {want}"


# ---------------------------------------------------------------- cells
def gen_cells(rng, i):
    m = rng.choice([7, 8, 12, 30])
    return {"x": [x if rng.random() < .7 else x[:2] for x in texts(rng, 6)], "max": m, "n": rng.choice([1, 2, 5]), "cut": rng.random() < .4, "batch": rng.choice([1, 2, 32]), "key": rng.randint(0, 9), "conf": rng.random() < .6,
            "pad": rng.choice([0, 0, 3, 4]), "names": rng.random() < .7, "col": rng.random() < .3}


def cells(p):
    sep = "\x01" * p["n"]
    pre = dproc.StructCharPreprocessor(max_length=p["max"], flatten_separator=sep, is_separate_at_max_len=p["cut"])
    post = dproc.StructCharPostprocessor(flatten_separator=sep, is_pred_labels=p["names"], random_state=1)
    data = np.array(p["x"])
    samples, bad = pieces(pre, data.reshape(-1, 1) if p["col"] else data, p["batch"], p["max"])
    if bad:
        return bad

    def of(ch):
        l = lab(p["key"], ch)
        return 0 if l == p["pad"] else l
    res = {"pred": [np.array([of(ch) for ch in s]) for s in samples]}
    if p["conf"]:
        res["conf"] = [np.zeros((len(s), len(LABELS))) for s in samples]
    out = post.process(data, res, MAP)
    if len(out["pred"]) != len(data):
        return f"{len(out['pred'])} labels of {len(data)} cells"
    for k, (x, got) in enumerate(zip(p["x"], out["pred"])):
        c = collections.Counter(of(ch) for ch in x)
        c.pop(0, None)
        top = max(c.values(), default=0)
        modes = [l for l in c if c[l] == top]
        if len(modes) > 1 and 1 in modes:
            modes.remove(1)
        if not modes:
            if not (got is None or got != got or str(got) == "None"):
                return f"label {got!r} of the cell {x!r} without labels"
        elif (got not in [LABELS[l] for l in modes]) if p["names"] else (got not in modes):
            return f"label {got!r} of the cell {x!r}, its characters have {dict(c)}"
        if p["conf"]:
            n = sum(c.values())
            want = [c.get(l, 0) / n if n else 0 for l in range(len(LABELS))]
            if not all(close(a, b) for a, b in zip(out["conf"][k], want)):
                return f"confidences {out['conf'][k].tolist()} of the cell {x!r}, are {want}"


# ---------------------------------------------------------------- regular expressions
PATS = {"NAME": ["[A-Z]+", "ab"], "DATE": ["[0-9]{2}", "[0-9]-"], "ZIP": ["[0-9]{3}", "b1"]}


def gen_regex(rng, i):
    return {"x": ["".join(rng.choice("abX01-") for _ in range(rng.choice([1, 2, 5, 8]))) for _ in range(rng.choice([1, 2, 4, 101]) if i % 20 == 0 else rng.choice([1, 2, 4]))],
            "how": rng.choice(["split", "priority"]), "order": rng.sample(range(5), 5), "case": rng.random() < .5, "enc": rng.random() < .3, "struct": rng.random() < .4}


def regex(p):
    params = {"regex_patterns": PATS, "default_label": "UNKNOWN", "ignore_case": p["case"], "encapsulators": {"start": r"(?<![\w])" if p["enc"] else "", "end": r"(?![\w])" if p["enc"] else ""}}
    m = RegexModel(label_mapping=dict(MAP), parameters=params)
    res = m.predict(np.array(p["x"], dtype=object), verbose=False, show_confidences=True)
    if len(res["pred"]) != len(p["x"]):
        return f"{len(res['pred'])} predictions of {len(p['x'])} texts"
    want = []
    for x in p["x"]:
        w = np.zeros((len(x), len(LABELS)))
        for l, ps in PATS.items():
            for q in ps:
                for f in re.finditer((r"(?<![\w])" if p["enc"] else "") + q + (r"(?![\w])" if p["enc"] else ""), x, re.IGNORECASE if p["case"] else 0):
                    w[f.start():f.end(), MAP[l]] = 1
        w[w.sum(axis=1) == 0, 1] = 1
        want.append(w)
    for x, a, c, w in zip(p["x"], res["pred"], res["conf"], want):
        if not np.array_equal(a, w):
            return f"matches {a.tolist()} of {x!r}, are {w.tolist()}"
        if not np.allclose(c, w / w.sum(axis=1, keepdims=True)):
            return f"confidences {c.tolist()} of {x!r}"
    before = [a.copy() for a in res["pred"]]
    if p["struct"]:
        out = dproc.StructRegexPostProcessor(random_state=1).process(np.array(p["x"]), res, MAP)
        for x, got, c, w in zip(p["x"], out["pred"], out["conf"], want):
            mean = (w / w.sum(axis=1, keepdims=True)).mean(axis=0)
            if not np.allclose(c, mean) or not close(mean[int(got)], mean.max()):
                return f"label {got} of the cell {x!r} with shares {mean.tolist()}"
    else:
        post = dproc.RegexPostProcessor(aggregation_func=p["how"], priority_order=p["order"] if p["how"] == "priority" else None, random_state=1)
        out = post.process(np.array(p["x"]), res, MAP)
        for x, got, w in zip(p["x"], out["pred"], want):
            if p["how"] == "split":
                if not np.allclose(got, w / w.sum(axis=1, keepdims=True)):
                    return f"shares {got.tolist()} of {x!r}, matches {w.tolist()}"
            else:
                best = [next(l for l in p["order"] if r[l]) for r in w]
                if [int(v) for v in got] != best:
                    return f"labels {got.tolist()} of {x!r}, first of the priority order are {best}"
    if any(not np.array_equal(a, b) for a, b in zip(before, res["pred"])):
        return "the model's predictions were changed"


# ---------------------------------------------------------------- column labels
class CellModel:
    def __init__(self, zero, n):
        self.requires_zero_mapping, self.num_labels = zero, n


class Cells:
    """labels cells by their text"""
    def __init__(self, key, zero):
        self.key, self.zero = key, zero
        self.model = CellModel(zero, len(LABELS))
        self.seen = []

    @property
    def label_mapping(self):
        return dict(MAP)

    @property
    def reverse_label_mapping(self):
        return {i: l for l, i in MAP.items()}

    def conf(self, x):
        r = np.random.RandomState((hash_text(x) * 31 + self.key) % (2 ** 31))
        kind = r.randint(0, 4)
        c = r.rand(len(LABELS))
        if kind == 0:
            c = c * .199          # nothing above the voting threshold
        elif kind == 1:
            c[r.randint(0, len(LABELS))] = 1.5
        return c

    def predict(self, data, predict_options=None, **kw):
        xs = [str(x) for x in np.asarray(data).reshape(-1)]
        self.seen += xs
        return {"pred": None, "conf": np.array([self.conf(x) for x in xs]).reshape(len(xs), len(LABELS))}

    def __eq__(self, other):
        return isinstance(other, Cells) and (self.key, self.zero) == (other.key, other.zero)


def hash_text(x):
    h = 7
    for ch in x:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def gen_column(rng, i):
    pool = [text(rng, rng.randint(1, 4)) for _ in range(rng.choice([1, 2, 4, 9]))]
    xs = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 12]))]
    return {"t": tree(rng, split(rng, xs, rng.choice([1, 2, 3, 4]))), "key": rng.randint(0, 99), "zero": rng.random() < .6, "max": rng.choice([None, None, 2, 5]), "seed": rng.randint(0, 999)}


def column(p):
    import random as _random
    np.random.seed(p["seed"])
    labs = []

    def mk():
        o = DataLabelerOptions()
        o.data_labeler_object = Cells(p["key"], p["zero"])
        labs.append(o.data_labeler_object)
        if p["max"]:
            o.max_sample_size = p["max"]
        return DataLabelerColumn("x", options=o)
    c = build(p["t"], mk, lambda c, b: c.update(pd.Series(b, dtype=object)) and None)
    batches = leaves(p["t"])
    xs = [x for l in labs for x in l.seen]
    want_n = sum(min(len(b), p["max"] or 1000) for b in batches)
    if len(xs) != want_n or c.sample_size != want_n:
        return f"{c.sample_size} cells sampled ({len(xs)} labelled), want {want_n}"
    if p["max"] is None and sorted(xs) != sorted(rows(p["t"])):
        return f"cells labelled {sorted(xs)}, given {sorted(rows(p['t']))}"
    model = Cells(p["key"], p["zero"])
    lo = 1 if p["zero"] else 0
    names = LABELS[lo:]
    if not xs:
        if c.data_label is not None or c.avg_predictions is not None or c.label_representation is not None:
            return f"label {c.data_label} of no cells"
        return
    cs = [model.conf(x)[lo:] for x in xs]
    votes = collections.Counter({n: 0 for n in names})
    for v in cs:
        if v.max() > .2:
            votes[names[int(v.argmax())]] += 1
    if dict(c.rank_distribution) != dict(votes):
        return f"votes {dict(c.rank_distribution)}, are {dict(votes)}"
    avg = sum(cs) / len(cs)
    got = c.avg_predictions
    if list(got) != names or not all(close(got[n], a) for n, a in zip(names, avg)):
        return f"average predictions {got}, are {dict(zip(names, avg))}"
    tot = sum(votes.values())
    rep = c.label_representation
    if list(rep) != names or any(not close(rep[n], votes[n] / max(1, tot)) for n in names):
        return f"representation {rep} of the votes {dict(votes)}"
    top = max(votes.values())
    share = {n: votes[n] / max(1, tot) for n in names}
    lbl = c.data_label
    if share and max(share.values()) < .35:
        if lbl != "could not determine":
            return f"label {lbl!r} of shares {share}"
    else:
        ls = lbl.split("|")
        order = sorted(share.values(), reverse=True)
        near = [s for s in order[:3] if top / tot - s <= .2 + 1e-12]
        sure = [s for s in order[:3] if top / tot - s <= .2 - 1e-12]
        if len(set(ls)) != len(ls) or not len(sure) <= len(ls) <= len(near) or [share[l] for l in ls] != order[:len(ls)]:
            return f"label {lbl!r} of shares {share}"


CHECKS = {"characters keep their labels": (gen_chars, chars), "training labels": (gen_train, train), "entity spans": (gen_spans, ner), "cells": (gen_cells, cells), "regular expressions": (gen_regex, regex),
          "column labels": (gen_column, column)}

"""Runtime contracts of P15: readers deliver the content of their source, every record once and unchanged."""
import collections
import csv as _csv
import io
import json
import os
import random
import tempfile

import pyarrow as pa
import pyarrow.parquet as pq

from .lib import *
from dataprofiler.data_readers.csv_data import CSVData
from dataprofiler.data_readers.json_data import JSONData
from dataprofiler.data_readers.parquet_data import ParquetData
from dataprofiler.data_readers.text_data import TextData
from dataprofiler.data_readers import data_utils

ALPHA = "abcXYZ019 .-_'/äß漢"
PLAIN = "abcXYZ019.-_/"


def word(rng, alpha=ALPHA, lo=0, hi=8):
    return "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


class Source:
    """the same content as a file, a byte buffer or a text buffer"""

    def __init__(self, kind, content, binary=False):
        self.kind, self.content = kind, content
        raw = content if binary else content.encode("utf-8")
        if kind == "file":
            self.dir = tempfile.mkdtemp(prefix="p15")
            self.arg = os.path.join(self.dir, "f")
            open(self.arg, "wb").write(raw)
        elif kind == "bytes":
            self.arg = io.BytesIO(raw)
        else:
            self.arg = io.StringIO(content, newline="")

    def left(self):
        if self.kind == "file":
            os.remove(self.arg)
            os.rmdir(self.dir)
            return None
        if self.arg.closed:
            return "the caller's buffer was closed"
        v = self.arg.getvalue()
        if v != (self.content.encode("utf-8") if isinstance(v, bytes) and isinstance(self.content, str) else self.content):
            return "the caller's buffer was changed"


# ---------------------------------------------------------------- text
def gen_text(rng, i):
    x = "".join(rng.choice(ALPHA + "\n\n\t,;{}[]\"") for _ in range(rng.choice([0, 1, 2, 5, 17, 40])))
    return {"x": x, "per": rng.choice([None, 1, 2, 3, 5, 7, 16, 17, 39, 40, 41, 100]), "kind": rng.choice(["data", "file", "bytes", "text"])}


def text_(p):
    opt = {"encoding": "utf-8"}
    if p["per"]:
        opt["samples_per_line"] = p["per"]
    if p["kind"] == "data":
        got = TextData(data=p["x"], options=opt).data
    else:
        s = Source(p["kind"], p["x"])
        r = TextData(s.arg, options=opt)
        got = r.data
        again = r.data
        bad = s.left()
        if bad or got != again:
            return bad or "reading again gives something else"
    if "".join(got) != p["x"]:
        return f"pieces {got} of {p['x']!r}"
    per = p["per"] or 10 ** 9
    if any(len(g) != per for g in got[:-1]) or (got and not 0 < len(got[-1]) <= per):
        return f"pieces of {[len(g) for g in got]} characters, asked for {per}"


# ---------------------------------------------------------------- JSON records
def value(rng, t):
    if t == "s":
        return word(rng, ALPHA + "\u2028\x0b\"\\,:")
    if t == "i":
        return rng.choice([0, 1, -3, 12345678901])
    if t == "f":
        return rng.choice([.5, -1.25, 1e20, 3.0])
    if t == "b":
        return rng.random() < .5
    return None


def gen_json(rng, i):
    keys = [(k, rng.choice("sssifb")) for k in dict.fromkeys(word(rng, "abcdXY9_", 1, 3) for _ in range(rng.randint(1, 4)))]
    sub = rng.random() < .4
    recs = []
    for _ in range(rng.choice([1, 1, 2, 3, 7, 30])):
        r = {k: value(rng, t) for k, t in keys}
        if sub:
            r["sub"] = {"x": value(rng, "s"), "y": {"z": value(rng, "s")}}
        recs.append(r)
    return {"recs": recs, "lines": rng.random() < .5, "blank": rng.random() < .4, "ascii": rng.random() < .5, "kind": rng.choice(["data", "data", "file", "bytes", "text"]), "seed": rng.randint(0, 9), "payload": rng.random() < .25,
            "format": rng.choice(["dataframe", "flattened_dataframe", "records"]), "crlf": rng.random() < .2}


def flat(r, pre=""):
    out = {}
    for k, v in r.items():
        if isinstance(v, dict):
            out.update(flat(v, pre + k + "."))
        else:
            out[pre + k] = v
    return out


def json_(p):
    rng = random.Random(p["seed"])
    recs = p["recs"]
    nl = "\r\n" if p["crlf"] else "\n"
    pre, fmt = "", p["format"]
    if p["lines"] and len(recs) > 1:
        ls = []
        for r in recs:
            ls.append(json.dumps(r, ensure_ascii=p["ascii"]))
            if p["blank"] and rng.random() < .4:
                ls.append(rng.choice(["", "  "]))
        content = nl.join(ls) + rng.choice(["", nl])
    elif p["payload"] and fmt == "flattened_dataframe":
        content, pre = json.dumps({"meta": "m", "data": recs}, ensure_ascii=p["ascii"]), "data."
    else:
        content = json.dumps(recs, ensure_ascii=p["ascii"])
    opt = {"data_format": fmt, "encoding": "utf-8"}
    if p["kind"] == "data":
        got = JSONData(data=content, options=opt).data
    else:
        s = Source(p["kind"], content)
        if not p["blank"] and not JSONData.is_match(s.arg):
            return f"not recognised as JSON: {content!r}"
        got = JSONData(s.arg, options=opt).data
        bad = s.left()
        if bad:
            return bad
    if fmt == "records":
        back = [json.loads(g) for chunk in got for g in chunk.split("\n")]
        want = [json.loads(json.dumps(r), parse_int=str, parse_float=lambda v: str(float(v)), parse_constant=str) for r in recs]
        if [sorted((k, str(v)) for k, v in flat(g).items()) for g in back] != [sorted((k, str(v)) for k, v in flat(w).items()) for w in want]:
            return f"records {back} of {recs}"
        return
    want = [flat(r) for r in recs]
    if len(got) != len(want):
        return f"{len(got)} rows of {len(want)} records ({content!r})"
    if sorted(got.columns) != sorted(pre + k for k in want[0]):
        return f"columns {list(got.columns)}, keys {list(want[0])}"
    for k in want[0]:
        g, w = got[pre + k].tolist(), [str(r[k]) for r in want]
        if g != w:
            return f"values {g} of key {k}, are {w}"


# ---------------------------------------------------------------- nested JSON
def nest(rng, d):
    r = rng.random()
    if d == 0 or r < .35:
        return rng.choice([0, 1, "a", "b", None, True, .5])
    if r < .75:
        return {k: nest(rng, d - 1) for k in dict.fromkeys(word(rng, "abc", 1, 1) for _ in range(rng.randint(1, 3)))}
    if r < .9:
        return [{k: nest(rng, d - 1) for k in dict.fromkeys(word(rng, "abc", 1, 1) for _ in range(rng.randint(1, 3)))} for _ in range(rng.randint(1, 3))]
    return [rng.choice([0, "a", {"a": 1}]) for _ in range(rng.randint(1, 3))] + [7]


def gen_nest(rng, i):
    x = {k: nest(rng, 3) for k in dict.fromkeys(word(rng, "abc", 1, 1) for _ in range(rng.randint(1, 3)))}
    return {"x": x, "sep": rng.choice([".", "..", "/"])}


def leaves_(x, path):
    if isinstance(x, dict):
        return [l for k, v in x.items() for l in leaves_(v, path + [k])]
    if isinstance(x, list) and all(isinstance(v, dict) for v in x):
        return [l for v in x for l in leaves_(v, path)]
    return [(tuple(path), x)]


def nested(p):
    r = JSONData(data=json.dumps(p["x"]), options={"key_separator": p["sep"]})
    if not hasattr(r, "_find_data"):
        return None
    got = r.data
    want = collections.defaultdict(list)
    for path, v in leaves_(p["x"], []):
        want[p["sep"].join(path)].append(v)
    if sorted(got.columns) != sorted(want):
        return f"columns {sorted(got.columns)}, leaves {sorted(want)}"
    for k, vs in want.items():
        cells = [c for c in got[k].tolist()]
        n = max(len(v) for v in want.values())
        if len(cells) != n:
            return f"{len(cells)} rows, the most frequent leaf occurs {n} times"
        # numbers and missing values share a column: compared by value
        norm = lambda c: "nan" if c in ("None", "nan") else ({"True": "1.0", "False": "0.0"}.get(c) or (lambda: str(float(c)) if _num(c) else c)())
        a, b = collections.Counter(norm(c) for c in cells), collections.Counter(norm(str(v)) for v in vs)
        a.pop("nan", None), b.pop("nan", None)
        if a != b:
            return f"cells {cells} of leaf {k}, values {vs}"


def _num(c):
    try:
        float(c)
        return True
    except ValueError:
        return False


# ---------------------------------------------------------------- delimited files
def gen_csv(rng, i):
    delim = rng.choice([",", ";", "|", "\t"])
    k = rng.randint(2, 4)
    n = rng.choice([1, 2, 3, 8, 30])
    lines = rng.random() < .25
    cell = lambda: word(rng, ALPHA + delim + ("\"" if rng.random() < .3 else "") + ("\n" if lines else ""), 0, 6)
    if rng.random() < .4:
        cell = lambda: word(rng, PLAIN, 1, 5)
    rows = [[cell() for _ in range(k)] for _ in range(n)]
    samp = None
    if not any("\n" in c for r in rows for c in r) and rng.random() < .4:
        samp = rng.choice([1, 2, 5, n, n + 3])
    head = [f"c{j}{word(rng, PLAIN, 0, 3)}" for j in range(k)]
    return {"rows": rows, "head": head, "delim": delim, "skip": rng.choice([0, 0, 1, 2]), "header": rng.random() < .7, "sample": samp, "kind": rng.choice(["data", "file", "bytes", "text"]), "crlf": rng.random() < .15,
            "nonl": rng.random() < .2, "pick": rng.random() < .2}


def csv_(p):
    out = io.StringIO(newline="")
    w = _csv.writer(out, delimiter=p["delim"], lineterminator="\r\n" if p["crlf"] else "\n", quoting=_csv.QUOTE_ALL if any("\n" in c or c == "" for r in p["rows"] for c in r) else _csv.QUOTE_MINIMAL)
    skip = p["skip"] if p["header"] else 0
    for _ in range(skip):
        out.write("a title" + ("\r\n" if p["crlf"] else "\n"))
    if p["header"]:
        w.writerow(p["head"])
    w.writerows(p["rows"])
    content = out.getvalue()
    if p["nonl"]:
        content = content[:-2] if p["crlf"] else content[:-1]
    opt = {"delimiter": p["delim"], "quotechar": '"', "header": skip if p["header"] else None, "encoding": "utf-8"}
    if p["sample"] is not None:
        opt["sample_nrows"] = p["sample"]
    cols = list(range(len(p["head"])))
    if p["pick"] and p["header"] and len(set(p["head"])) == len(p["head"]):
        cols = sorted(random.Random(len(content)).sample(cols, 1 + len(cols) // 2))
        opt["selected_columns"] = [p["head"][j] for j in cols]
    keep = dict(opt)
    if p["kind"] == "data":
        if p["crlf"]:
            return
        r = CSVData(data=content, options=opt)
        got = r.data
    else:
        s = Source(p["kind"], content)
        r = CSVData(s.arg, options=opt)
        got = r.data
        again = r.data
        bad = s.left()
        if bad or not got.equals(again):
            return bad or "reading again gives something else"
    if opt != keep:
        return f"the caller's options became {opt}"
    names = [p["head"][j] for j in cols] if p["header"] else cols
    if list(got.columns) != names:
        return f"columns {list(got.columns)}, header {names}"
    have = [tuple(r) for r in got.values.tolist()]
    want = [tuple(r[j].replace("\r\n", "\n") for j in cols) for r in p["rows"]]
    if p["sample"] is None:
        if have != want:
            return f"rows {have} of {want}"
    else:
        if len(have) != min(p["sample"], len(want)):
            return f"{len(have)} rows sampled, asked for {p['sample']} of {len(want)}"
        if collections.Counter(have) - collections.Counter(want):
            return f"sampled {have} of {want}"


# ---------------------------------------------------------------- reservoir
def gen_res(rng, i):
    n = rng.choice([0, 1, 2, 5, 20, 200])
    return {"n": n, "k": rng.choice([1, 2, 3, 7, max(1, n - 1), max(1, n), n + 2]), "seed": rng.randint(0, 10 ** 6)}


def res_(p):
    import dataprofiler
    dataprofiler.set_seed(p["seed"])
    got = data_utils.reservoir(io.StringIO("".join(f"line {j}\n" for j in range(p["n"]))), p["k"])
    if len(got) != min(p["n"], p["k"]) or len(set(got)) != len(got) or any(g not in {f"line {j}\n" for j in range(p["n"])} for g in got):
        return f"sampled {got} of {p['n']} lines, asked for {p['k']}"


# ---------------------------------------------------------------- parquet
def gen_parquet(rng, i):
    n = rng.choice([1, 2, 3, 10, 50])
    return {"a": [rng.randint(-5, 5) for _ in range(n)], "b": [word(rng) for _ in range(n)], "c": [rng.choice([.5, 2.0, -1.25]) for _ in range(n)], "group": rng.choice([1, 2, 7, 1000]), "sample": rng.choice([None, None, 1, 2, n, n + 5]),
            "kind": rng.choice(["file", "bytes"]), "pick": rng.choice([None, ["b"], ["c", "a"]])}


def parquet(p):
    buf = io.BytesIO()
    pq.write_table(pa.table({k: p[k] for k in "abc"}), buf, row_group_size=p["group"])
    s = Source(p["kind"], buf.getvalue(), binary=True)
    if not ParquetData.is_match(s.arg):
        return "not recognised as parquet"
    opt = {}
    if p["sample"] is not None:
        opt["sample_nrows"] = p["sample"]
    if p["pick"]:
        opt["selected_columns"] = p["pick"]
    got = ParquetData(s.arg, options=opt).data
    bad = s.left()
    if bad:
        return bad
    cols = p["pick"] or ["a", "b", "c"]
    if list(got.columns) != cols:
        return f"columns {list(got.columns)}, are {cols}"
    want = list(zip(*[[str(v) for v in p[c]] for c in cols]))
    have = [tuple(r) for r in got.values.tolist()]
    if p["sample"] is None or p["sample"] >= len(want):
        if have != want:
            return f"rows {have} of {want}"
    else:
        it = iter(want)
        if len(have) != p["sample"] or not all(any(h == w for w in it) for h in have):
            return f"sampled {have} of {want}"


# ---------------------------------------------------------------- batches
def gen_batches(rng, i):
    n = rng.choice([0, 1, 2, 5, 17])
    return {"n": n, "size": rng.choice([1, 2, 3, 5, max(1, n), n + 1]), "frame": rng.random() < .6}


def batches(p):
    if p["frame"]:
        r = CSVData(data=pd.DataFrame({"a": [str(j) for j in range(p["n"])], "b": ["x"] * p["n"]}))
        got = [b["a"].tolist() for b in r.get_batch_generator(p["size"])]
        want = [str(j) for j in range(p["n"])]
    else:
        x = "".join(chr(0x4e00 + j) for j in range(p["n"]))
        r = TextData(data=x, options={"samples_per_line": 1})
        got, want = [list(b) for b in r.get_batch_generator(p["size"])], list(x)
    if sorted(v for b in got for v in b) != sorted(want):
        return f"batches {got} of {want}"
    if any(len(b) != p["size"] for b in got[:-1]) or (got and not 0 < len(got[-1]) <= p["size"]):
        return f"batches of {[len(b) for b in got]}, asked for {p['size']}"


CHECKS = {"text": (gen_text, text_), "JSON records": (gen_json, json_), "nested JSON": (gen_nest, nested), "delimited files": (gen_csv, csv_), "sampled lines": (gen_res, res_), "parquet": (gen_parquet, parquet),
          "batches": (gen_batches, batches)}

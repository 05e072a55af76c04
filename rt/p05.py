"""Runtime contracts of P05: order classification."""
from .lib import *
from dataprofiler.profilers.order_column_profile import OrderColumn

WORDS = ["apple", "Banana", "a b", "zebra", "cat", "dog", "x1", "x10", "x2", "Éclair", "aa", "b", "~"]


def data(rng):
    n = rng.choice([1, 2, 3, 4, 6, 9, 14])
    text = rng.random() < .35
    v = [rng.choice(WORDS) for _ in range(n)] if text else numbers(rng, n)
    s = rng.choice(["asis", "up", "up", "down", "down", "near", "pieces"])
    if s in ("up", "near"):
        v = sorted(v)
    if s == "down":
        v = sorted(v, reverse=True)
    if s == "near" and n > 1:
        k = rng.randrange(n - 1)
        v[k], v[k + 1] = v[k + 1], v[k]
    return text, v, s


def gen(rng, i):
    text, v, s = data(rng)
    parts = split(rng, v, rng.choice([1, 1, 2, 3, 4, 5]))
    if s == "pieces":
        parts = [sorted(x) if rng.random() < .9 else sorted(x, reverse=True) for x in parts]
    return {"text": text, "tree": tree(rng, [[x if text else as_row(rng, x) for x in b] for b in parts]),
            "sub": rng.choice([0, 4000, 1000])}


def classify(v):
    up, dn = all(a <= b for a, b in zip(v, v[1:])), all(a >= b for a, b in zip(v, v[1:]))
    return None if not v else "constant value" if up and dn else "ascending" if up else "descending" if dn else "random"


def key(p):
    return (lambda x: x) if p["text"] else float


def expect(p, got, parts):
    """parts: value lists of the batches in row order"""
    parts = [b for b in parts if b]
    cs = [classify(b) for b in parts]
    if not parts:
        return None if got is None else f"order {got} of no rows"
    if len(parts) == 1 and got != cs[0]:
        return f"one batch {parts[0]}: {got}, is {cs[0]}"
    if "random" in cs or {"ascending", "descending"} <= set(cs):
        if got != "random":
            return f"{got}, batches are {cs}"
    if got in ("ascending", "descending") and any(c not in (got, "constant value") for c in cs):
        return f"{got}, batches are {cs}"
    if got == "constant value" and set(cs) != {got}:
        return f"{got}, batches are {cs}"
    whole = classify([x for b in parts for x in b])
    if whole in ("ascending", "descending"):
        ok = ["constant value"] if set(cs) == {"constant value"} else [whole]
        if got not in ok:
            return f"{whole} data in consecutive batches {parts}: {got}"
    if whole == "constant value" and got != whole:
        return f"constant data: {got}"
    return None


def ser(b, p):
    return pd.Series(b, dtype=object)


def upd(c, b):
    c.update(pd.Series(b, dtype=object))


def neg(t):
    def f(x):
        return x[1:] if x.startswith("-") else "-" + x
    r = {"u": [[f(x) for x in b] for b in t["u"]]}
    if "m" in t:
        r["m"] = [neg(s) for s in t["m"]]
    return r


def flip(t):
    r = {"u": t["u"]}
    if "m" in t:
        r["m"] = [flip(s) for s in t["m"]][::-1]
    return r


def chk(p):
    k = key(p)
    mk = lambda: OrderColumn("c")
    with quiet():
        c = build(p["tree"], mk, upd)
    parts = [[k(x) for x in b] for b in leaves(p["tree"])]
    m = expect(p, c.order, parts)
    if m:
        return m
    if c.sample_size != sum(map(len, parts)):
        return f"sample size {c.sample_size} of {sum(map(len, parts))}"
    with quiet():
        d = build(flip(p["tree"]), mk, upd)
    if c.order != d.order:
        return f"{c.order}, with the operands of every merge swapped {d.order}"
    if not p["text"]:
        with quiet():
            e = build(neg(p["tree"]), mk, upd)
        if e.order != {"ascending": "descending", "descending": "ascending"}.get(c.order, c.order):
            return f"{c.order}, of the negated values {e.order}"
    # random stays random
    with quiet():
        r = mk()
        upd(r, ["1", "3", "2"] if not p["text"] else ["a", "c", "b"])
        if any(x.order != "random" for x in ((r + c, c + r) if c.order else ())):
            return "random merged with " + str(c.order) + " is not random"
    return None


def gen_prof(rng, i):
    p = gen(rng, i)
    return {"text": p["text"], "parts": [b for b in leaves(p["tree"]) if b] or [["1"]], "off": rng.choice([0, 0, 100, 1000, 4000, 1000003]),
            "nulls": rng.random() < .3, "merge": rng.random() < .3, "r": rng.randint(0, 999), "ix": rng.choice(["up", "up", "rev"])}


def chk_prof(p):
    import random
    rng, k = random.Random(p["r"]), key(p)
    o = prof_options(**{"correlation.is_enabled": False, "chi2_homogeneity.is_enabled": False, "category.is_enabled": False})
    at, pr = p["off"], None
    for b in p["parts"]:
        v = []
        for x in b:
            if p["nulls"] and rng.random() < .3:
                v.append(None)
            v.append(x)
        d = frame({"a": v})
        d.index = range(at, at + len(v)) if p["ix"] == "up" else range(at, at + len(v))[::-1]
        at += len(v)
        if pr is None:
            pr = profile(d, o)
        elif p["merge"]:
            pr = merge(pr, profile(d, o))
        else:
            update(pr, d)
    got = pr.report()["data_stats"][0]["order"]
    return expect(p, got, [[k(x) for x in b] for b in p["parts"]])


CHECKS = {"order of columns": (gen, chk), "order in profiles": (gen_prof, chk_prof)}

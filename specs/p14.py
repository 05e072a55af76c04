"""P14: labels belong to the characters and cells they are reported for.

Ghost: the label of every character (a function of its position), a fixed but arbitrary position q and label; texts, predictions and
confidences are functions over unbounded index ranges."""
from __future__ import annotations

import collections
import itertools

from .common import *
from .p12 import Tally, count
from dv import keymaps
from dv.core import Sym, lit, need
from dv.keymaps import B, I, K, KeyMap, SymKey, k_
from dv.loops import SymIter

R = z3.RealSort()


# ---------------------------------------------------------------- characters of a text
class Char(Sym):
    rep_type = str

    def __init__(self, code):
        self.code = code

    def _dv_in(self, c):
        return Ctx.cur.branch(z3.Or(*[self.code == ord(s) for s in c]), "a separator")

    def __eq__(self, o):
        if isinstance(o, str):
            return Ctx.cur.branch(self.code == ord(o), "this character") if len(o) == 1 else False
        return SymBool(self.code == o.code)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class Text(Sym):
    rep_type = str

    def __init__(self, ctx, name="text"):
        self.n = ctx.fresh(name + ".length", I)
        ctx.assume(self.n >= 0)
        self.code = z3.Function(name + ".character", I, I)

    def _dv_len(self):
        return SymNum(self.n, "int")

    def _dv_str(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            Ctx.cur.stop(Unsupported("slice of a text"))
        e = num_expr(i)
        c = Ctx.cur
        if c.branch(z3.Or(e >= self.n, e < -self.n), "position outside the text"):
            raise IndexError("string index out of range")
        if c.branch(e < 0, "position from the end"):
            e = e + self.n
        return Char(self.code(e))


SEPS = (" ", "\n", ",", "\t", "\r", "\x00", "\x01", ";")


def is_sep(t, i):
    return z3.Or(*[t.code(i) == ord(s) for s in SEPS])


def break_invariants(loop, vars, slots, i):
    """annotation: no separator between a distance back from the start and the start"""
    g = Ctx.cur.run.ghosts
    if "sentence" not in g:
        return []
    t, s, m, q = g["sentence"], g["start"], g["min"], g["q"]
    out = []
    for n, v in vars.items():
        if isinstance(v, (SymNum, int)) and not isinstance(v, bool):
            e = num_expr(v)
            out += [(f"{n}: distance passed over no separator", z3.Implies(z3.And(s - e < q, q <= s), z3.Not(is_sep(t, q)))),
                    (f"{n}: position passed over no separator", z3.Implies(z3.And(e < q, q <= s), z3.Not(is_sep(t, q)))),
                    (f"{n}: distance within", s - e >= m), (f"{n}: position within", z3.And(e >= m, e <= s))]
    return out


def sentence_break(ctx):
    cls = env().mod("labelers.data_processing").CharPreprocessor
    f = need(cls, "_find_nearest_sentence_break_before_ind")
    t = Text(ctx, "sentence")
    s, m, q = ctx.fresh("start", I), ctx.fresh("min", I), ctx.fresh("q", I)
    ctx.assume(z3.And(0 <= m, m <= s, s < t.n, m < q, q <= s))
    ctx.inputs["start"], ctx.inputs["min"] = SymNum(s, "int"), SymNum(m, "int")
    ctx.run.ghosts = {"sentence": t, "start": s, "min": m, "q": q}
    r = f(t, SymNum(s, "int"), min_ind=SymNum(m, "int"))
    ctx.alive()
    ctx.run.cover("found")
    e = num_expr(r)
    ctx.prove("the break lies between the limits", z3.And(m <= e, e <= s))
    ctx.prove("the break is at a separator or at the lower limit", z3.Or(e == m, is_sep(t, e)))
    ctx.prove("no separator between the break and the start", z3.Implies(e < q, z3.Not(is_sep(t, q))))


# ---------------------------------------------------------------- entity spans
NAME = z3.Function("label.name", I, K)


class Mapping(Sym):
    """label -> number and back; the named ones are the pad and the default label"""
    rep_type = dict

    def __init__(self, known):
        self.known = known

    def __getitem__(self, k):
        return SymNum(self.known[k], "int")

    get = __getitem__

    def items(self):
        return Pairs()


class Pairs(Sym):
    def _dv_comp(self, kind, elt, cond):
        c = Ctx.cur
        k, v = SymKey(c.fresh("a label", K)), SymNum(c.fresh("its number", I), "int")
        if kind == "dict" and cond is None:
            a, b = elt((k, v))
            if a is v and b is k:
                return Back()
        c.stop(Unsupported("comprehension over the label mapping"))


class Back(Sym):
    rep_type = dict

    def __init__(self):
        self.gone = []

    def __getitem__(self, i):
        e = num_expr(i)
        if self.gone and Ctx.cur.branch(z3.Or(*[e == g for g in self.gone]), "a label taken out"):
            raise KeyError(i)
        return SymKey(NAME(e))

    def get(self, i, d=None):
        return self[i]

    def pop(self, i, d=None):
        self.gone.append(num_expr(i))
        return SymKey(NAME(num_expr(i)))

    def _dv_content(self):
        return tuple(g.get_id() for g in self.gone)


class Labels(Sym):
    """predicted labels of the characters of one text"""

    def __init__(self, ctx):
        self.n = ctx.fresh("characters", I)
        ctx.assume(self.n >= 0)
        self.lab = z3.Function("label.at", I, I)

    def _dv_len(self):
        return SymNum(self.n, "int")

    def at(self, i):
        return SymNum(self.lab(num_expr(i)), "int", True)

    def __getitem__(self, i):
        if isinstance(i, slice):
            Ctx.cur.stop(Unsupported("slice of the predictions"))
        e = num_expr(i)
        c = Ctx.cur
        if c.branch(z3.Or(e >= self.n, e < -self.n), "position outside the predictions"):
            raise IndexError("index out of bounds")
        if c.branch(e < 0, "position from the end"):
            e = e + self.n
        return self.at(SymNum(e, "int"))

    def _dv_iter(self):
        return SymIter(SymNum(self.n, "int"), self.at, self)


class Spans(Sym):
    """a list; of entities (begin, end, label) it keeps how many cover position q and the last of those"""
    rep_type = list

    def __init__(self, native=()):
        self.native = list(native)
        self.cov, self.end, self.b, self.e = (z3.IntVal(0) for _ in range(4))
        self.lab = z3.Const("no label", K)
        self.ok = z3.BoolVal(True)
        self.sym = False

    def append(self, x):
        c = Ctx.cur
        if not (isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], SymKey)):
            if self.sym:
                c.stop(Unsupported("mixed list"))
            self.native.append(x)
            return
        self.sym = True
        b, e, q = num_expr(x[0]), num_expr(x[1]), c.run.ghosts["q"]
        hit = z3.And(b <= q, q < e)
        self.cov = self.cov + z3.If(hit, 1, 0)
        self.b, self.e, self.lab = z3.If(hit, b, self.b), z3.If(hit, e, self.e), z3.If(hit, x[2].e, self.lab)
        self.ok = z3.And(self.ok, b < e, self.end <= b)
        self.end = e

    def _dv_len(self):
        if self.sym:
            Ctx.cur.stop(Unsupported("number of entities"))
        return len(self.native)

    def __getitem__(self, i):
        return self.native[i]

    def __iter__(self):
        return iter(self.native)

    def _f(self):
        return (self.cov, self.end, self.b, self.e, self.lab, self.ok)

    def _dv_content(self):
        return tuple(x.get_id() for x in self._f()) + tuple(id(v) for v in self.native)

    def copy(self):
        r = Spans(self.native)
        r.cov, r.end, r.b, r.e, r.lab, r.ok = self._f()
        r.sym = self.sym
        return r

    _dv_freeze = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.sym = True
        self.cov, self.end, self.b, self.e = (c.fresh(path + s, I) for s in (".covering", ".end", ".b", ".e"))
        self.lab, self.ok = c.fresh(path + ".label", K), c.fresh(path + ".ordered", B)


def plain(l, i):
    g = Ctx.cur.run.ghosts
    return z3.Or(l.lab(i) == g["pad"], l.lab(i) == g["default"])


def span_facts(l, s, upto):
    """position q < upto lies in exactly one maximal run of its label, or is background"""
    g = Ctx.cur.run.ghosts
    q, r = g["q"], g["r"]
    lq = l.lab(q)
    run = z3.And(s.cov == 1, s.b <= q, q < s.e, 0 <= s.b, s.e <= upto, s.lab == NAME(lq), z3.Implies(z3.And(s.b <= r, r < s.e), l.lab(r) == lq),
                 z3.Or(s.b == 0, l.lab(s.b - 1) != lq), z3.Or(s.e == l.n, l.lab(s.e) != lq))
    return z3.If(plain(l, q), s.cov == 0, run)


def span_invariants(loop, vars, slots, i):
    l = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(l, Labels):
        return []
    g = Ctx.cur.run.ghosts
    q, r, i = g["q"], g["r"], i.e
    out = []
    ss = {n: v for n, v in slots.items() if isinstance(v, Spans)}
    for n, v in vars.items():
        if not isinstance(v, (SymNum, int)) or isinstance(v, bool):
            continue
        e = num_expr(v)
        if e.sort() != I:
            continue
        out += [(f"{n}: last position", e == i - 1), (f"{n}: last label", z3.Implies(i > 0, e == l.lab(i - 1))),
                (f"{n}: open run", z3.Or(z3.And(e == -1, z3.Or(i == 0, plain(l, i - 1))),
                                         z3.And(0 <= e, e < i, z3.Not(plain(l, e)), z3.Or(e == 0, l.lab(e - 1) != l.lab(e))))),
                (f"{n}: one label in the open run", z3.Implies(z3.And(e >= 0, e <= r, r < i), l.lab(r) == l.lab(e))),
                (f"{n}: one label in the open run (q)", z3.Implies(z3.And(e >= 0, e <= q, q < i), l.lab(q) == l.lab(e))),
                (f"{n}: one label up to the last", z3.Implies(z3.And(e >= 0, i > 0), l.lab(i - 1) == l.lab(e)))]
        for m, s in ss.items():
            done = z3.If(e == -1, i, e)
            out += [(f"{m}: entities before {n}", z3.And(s.ok, s.end <= done, s.end >= 0)),
                    (f"{m}: position q before {n}", z3.If(q < done, span_facts(l, s, done), s.cov == 0))]
    return out


def lists(mod):
    import types
    if not hasattr(mod, "_dv_spans"):
        mod._dv_spans = True
        d = types.SimpleNamespace(**vars(mod.__dict__["__dv__"]))
        d.mklist = lambda x: Spans() if not x else x
        mod.__dict__["__dv__"] = d


def entity_spans(ctx):
    mod = env().mod("labelers.data_processing")
    lists(mod)
    f = need(mod.CharPostprocessor, "convert_to_NER_format")
    l = Labels(ctx)
    q, r, pad, default = (ctx.fresh(n, I) for n in ("q", "r", "pad", "default"))
    ctx.assume(z3.And(0 <= q, q < l.n, 0 <= r, r < l.n))
    ctx.inputs["characters"], ctx.inputs["position"] = SymNum(l.n, "int"), SymNum(q, "int")
    ctx.run.ghosts = {"q": q, "r": r, "pad": pad, "default": default}
    res = f([l], Mapping({"D": default, "P": pad}), "D", "P")
    ctx.alive()
    ctx.run.cover("listed")
    ctx.prove("one list for the text", isinstance(res, Spans) and not res.sym and len(res.native) == 1 and isinstance(res.native[0], Spans))
    s = res.native[0]
    ctx.prove("entities are in order and do not overlap", s.ok)
    ctx.prove("every character is in the maximal run of its label, or background and in none", span_facts(l, s, l.n))


PROOFS = {"sentence break": (sentence_break, {"loop_specs": [break_invariants], "covers": ["found"]}),
          "entity spans": (entity_spans, {"loop_specs": [span_invariants], "covers": ["listed"]})}
ASSUMPTIONS = []


# ---------------------------------------------------------------- labels of cells
class Predicted(Sym):
    """labels of the characters of one cell: how many there are of each label among its own"""

    def __init__(self, cell, counts):
        self.cell, self.counts = cell, counts

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start is None and s.step is None and isinstance(s.stop, SymNum) and s.stop.e.eq(self.cell.n):
            return Own(self.counts)
        Ctx.cur.stop(Unsupported("other part of the predictions of a cell"))


class Own(Sym):
    def __init__(self, counts):
        self.counts = counts


class NP:
    """numpy for arrays of symbolic numbers"""

    def __init__(self, base):
        self.base = base

    def __getattr__(self, n):
        return getattr(self.base, n)

    def zeros(self, shape, dtype=None):
        a = np.empty(shape, dtype=object)
        a.fill(0)
        return a

    def ones(self, shape, dtype=None):
        a = np.empty(shape, dtype=object)
        a.fill(1)
        return a

    def array(self, x, *a, **k):
        if isinstance(x, (list, tuple)) and any(isinstance(y, Sym) or (isinstance(y, tuple) and any(isinstance(z, Sym) for z in y)) for y in x):
            return np.array(x, dtype=object)
        return self.base.array(x, *a, **k)

    def fromiter(self, it, dtype=None, count=-1):
        return np.array(list(it), dtype=object)

    def sum(self, x, axis=None, **k):
        if isinstance(x, Conf):
            return x.sum(axis)
        if isinstance(x, (list, tuple)) and x and all(isinstance(v, Vec) for v in x):
            r = x[0]
            for v in x[1:]:
                r = r + v
            return r
        if isinstance(x, (list, tuple)) and x and all(isinstance(v, np.ndarray) for v in x) and axis == 0:
            r = x[0]
            for v in x[1:]:
                r = r + v
            return r
        return self.base.sum(x, axis=axis, **k)

    def delete(self, x, i, axis=None):
        return x.delete(i, axis) if isinstance(x, Conf) else self.base.delete(x, i, axis=axis)

    def argpartition(self, x, kth=None, axis=-1, **k):
        return Rank(x, kth) if isinstance(x, Conf) else self.base.argpartition(x, kth, axis=axis, **k)

    def argsort(self, x, *a, **k):
        return "any order" if isinstance(x, One) else self.base.argsort(x, *a, **k)

    def argmax(self, x, axis=None, **k):
        if isinstance(x, Conf) and axis in (1, -1):
            return Best(x)
        return self.base.argmax(x, axis=axis, **k)


def numpy_of(mod):
    if not isinstance(mod.__dict__.get("np"), NP):
        mod.np = NP(mod.np)


def tally(x=()):
    if isinstance(x, Own):
        return collections.Counter(x.counts)
    return collections.Counter(x)


class Choice:
    """any element"""

    def __init__(self, ctx):
        self.ctx = ctx

    def choice(self, xs):
        for x in xs[:-1]:
            if self.ctx.branch(self.ctx.fresh("chosen", B), "chosen"):
                return x
        return xs[-1]


def cell_labels(ctx):
    mod = env().mod("labelers.data_processing")
    numpy_of(mod)
    for n, v in list(vars(mod).items()):
        if v is collections.Counter:
            setattr(mod, n, tally)
    post = object.__new__(mod.StructCharPostprocessor)
    post._parameters = {"random_state": Choice(ctx)}
    f = need(post, "convert_to_structured_analysis")
    ids = {0: "P", 1: "D", 2: "A", 3: "B"}
    counts = {}
    for j in (2, 0, 3, 1):
        c = ctx.fresh(f"characters labelled {ids[j]}", I)
        ctx.assume(c >= 0)
        ctx.inputs[f"count {ids[j]}"] = SymNum(c, "int")
        if ctx.branch(c > 0, f"some are {ids[j]}"):
            counts[j] = SymNum(c, "int")
    cell = Text(ctx, "cell")
    ctx.assume(cell.n == z3.Sum([v.e for v in counts.values()] + [z3.IntVal(0)]))
    conf = ctx.branch(ctx.fresh("with confidences", B), "with confidences")
    res = {"pred": [Predicted(cell, counts)]}
    if conf:
        res["conf"] = [None]
    out = f([cell], res, {v: k for k, v in ids.items()}, "D", "P")
    ctx.alive()
    ctx.run.cover("labelled")
    own = {j: v for j, v in counts.items() if j != 0}
    got = out["pred"][0]
    ctx.prove("one label per cell", len(out["pred"]) == 1)
    if not own:
        ctx.prove("a cell without labelled characters has no label", got is None or got != got)
    else:
        ctx.run.cover("most frequent")
        ctx.prove("the label is that of some of its characters", got in own)
        ctx.prove("no other label is more frequent", z3.And(*[own[got].e >= v.e for v in own.values()]))
        if got == 1:
            ctx.prove("the background only if no other label is as frequent", z3.And(*([z3.BoolVal(True)] + [own[got].e > v.e for j, v in own.items() if j != 1])))
    if conf:
        ctx.prove("one row of confidences, one per label", out["conf"].shape == (1, 4))
        tot = z3.Sum([v.e for v in own.values()]) if own else None
        for j in range(4):
            x = out["conf"][0, j]
            if j in own:
                ctx.prove_eq(f"confidence of label {j} is its share", x, SymNum(z3.ToReal(own[j].e) / z3.ToReal(tot), "float"))
            else:
                ctx.prove_eq(f"confidence of label {j} is 0", x, 0)


# ---------------------------------------------------------------- labels of columns
class Conf(Sym):
    """confidences: one row per cell, one column per label from number off on"""

    def __init__(self, ctx, n, off=0, base=None):
        self.n, self.off = n, off
        if base is None:
            self.at_ = z3.Function("confidence", I, I, R)
            self.best = z3.Function("best", I, I)              # number of the label with the highest confidence (labels that count)
            self.k = ctx.fresh("labels", I)
            g = ctx.run.ghosts
            self.lo, self.colsum = g["lo"], ctx.fresh("column sum", R)
            self.votes = z3.Function("votes", I, I)
            ctx.assume(z3.And(self.votes(0) == 0, self.k > self.lo, self.lo <= g["label"], g["label"] < self.k))
        else:
            for a in ("at_", "best", "k", "lo", "colsum", "votes"):
                setattr(self, a, getattr(base, a))

    def delete(self, i, axis):
        if i != 0 or axis != 1 or self.off:
            Ctx.cur.stop(Unsupported("other columns removed"))
        return Conf(Ctx.cur, self.n, 1, self)

    def sum(self, axis=None):
        if axis != 0:
            Ctx.cur.stop(Unsupported("sum of other confidences"))
        return Vec(self.colsum, self.off)

    @property
    def shape(self):
        return (SymNum(self.n, "int"), SymNum(self.k - self.off, "int"))

    def _dv_len(self):
        return SymNum(self.n, "int")

    def step(self, i):
        """facts of row i"""
        c, g = Ctx.cur, Ctx.cur.run.ghosts
        b = self.best(i)
        c.assume(z3.And(self.lo <= b, b < self.k, z3.Select(g["has"], NAME(b)),
                        self.votes(i + 1) == self.votes(i) + z3.If(z3.And(self.at_(i, b) > g["threshold"], NAME(b) == g["key"]), 1, 0)))
        return b

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self[i[0]][i[1]]
        e = num_expr(i)
        self.step(e)
        return Row(self, e)


class Row(Sym):
    def __init__(self, m, i):
        self.m, self.i = m, i

    def __getitem__(self, j):
        if isinstance(j, One):
            return j
        return SymNum(self.m.at_(self.i, num_expr(j) + self.m.off), "float", True)


class Rank(Sym):
    """np.argpartition(confidences, kth=-1, axis=1): the last entry of a row is a column of its maximum"""

    def __init__(self, m, kth):
        if kth != -1 or m.off != m.lo:
            Ctx.cur.stop(Unsupported("other partition of the confidences"))
        self.m = m

    @property
    def shape(self):
        return self.m.shape

    def _dv_len(self):
        return SymNum(self.m.n, "int")

    def __getitem__(self, i):
        return RankRow(self.m, num_expr(i))


class RankRow(Sym):
    def __init__(self, m, i):
        self.m, self.i = m, i

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start == -1 and s.stop is None:
            return One(SymNum(self.m.step(self.i) - self.m.off, "int", True))
        if isinstance(s, int) and s == -1:
            return SymNum(self.m.step(self.i) - self.m.off, "int", True)
        Ctx.cur.stop(Unsupported("other part of the ranking"))


class Best(Sym):
    def __init__(self, m):
        if m.off != m.lo:
            Ctx.cur.stop(Unsupported("maximum over labels that do not count"))
        self.m = m

    def __getitem__(self, i):
        return SymNum(self.m.step(num_expr(i)) - self.m.off, "int", True)

    def _dv_len(self):
        return SymNum(self.m.n, "int")


class One(Sym):
    """an array of one element: every permutation of it is itself"""

    def __init__(self, x):
        self.x = x

    def __getitem__(self, i):
        return self.x if i == 0 or i == -1 else self

    def __iter__(self):
        return iter([self.x])

    def _dv_len(self):
        return 1


class Vec(Sym):
    """a vector over the labels from number off on: its component of the label looked at"""

    def __init__(self, e, off):
        self.e, self.off = e, off

    def __add__(self, o):
        if not isinstance(o, Vec):
            Ctx.cur.stop(Unsupported("vector + other"))
        if o.off != self.off:
            raise ValueError("operands could not be broadcast together")
        return Vec(self.e + o.e, self.off)

    __radd__ = __iadd__ = __add__


class Votes(Tally):
    """votes of the labels that count; others are no keys"""

    def __getitem__(self, k):
        e = self._key(k)
        if not Ctx.cur.branch(z3.Select(self.has, e), "a label that counts"):
            raise KeyError(k)
        return SymNum(z3.Select(self.val, e), "int")

    def __setitem__(self, k, v):
        e = self._key(k)
        if not Ctx.cur.branch(z3.Select(self.has, e), "a label that counts"):
            Ctx.cur.stop(Unsupported("votes for a label that does not count"))
        self.val = z3.Store(self.val, e, num_expr(v))

    def copy(self):
        return Votes(self.has, self.val, None, self.name, self.native, self.total)

    def _dv_havoc(self, loop, path):
        self.val = Ctx.cur.fresh(path + ".val", z3.ArraySort(K, I))      # the keys never change: see __setitem__


class CellLabeler:
    def __init__(self, ctx, zero):
        class M:
            requires_zero_mapping = zero
        self.model = M()
        self.ctx = ctx
        self.got = []

    @property
    def reverse_label_mapping(self):
        return Back()

    def predict(self, data, predict_options=None, **k):
        self.got.append(data)
        ok = predict_options is not None and predict_options.get("show_confidences") is True
        self.ctx.prove("confidences are asked for", ok)
        self.conf = Conf(self.ctx, num_expr(data._dv_len()), 0)
        return {"pred": None, "conf": self.conf}


class Cells(Sym):
    """the cells of a batch"""

    def __init__(self, n, sampled=False):
        self.n, self.sampled = n, sampled

    def _dv_len(self):
        return SymNum(self.n, "int")

    def sample(self, k=None, **kw):
        c = Ctx.cur
        e = num_expr(k)
        if kw:
            c.stop(Unsupported("sample with options"))
        if c.branch(e > self.n, "sample larger than the batch"):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        return Cells(e, True)


def labeler_column(ctx, zero, name="a"):
    m = env().mod("profilers.data_labeler_column_profile")
    numpy_of(m)
    po = env().mod("profilers.profiler_options")
    o = po.DataLabelerOptions()
    lab = CellLabeler(ctx, zero)
    o.__dict__["data_labeler_object"] = lab
    col = m.DataLabelerColumn("x", options=o)
    col.data_labeler = lab
    size = ctx.fresh(name + ".sample_size", I)
    ctx.assume(size >= 0)
    col.sample_size = SymNum(size, "int")
    return col, lab


def vote_invariants(loop, vars, slots, i):
    g = Ctx.cur.run.ghosts
    if i is None or "labeler" not in g or not hasattr(g["labeler"], "conf"):
        return []
    m = g["labeler"].conf
    out = []
    for n, r in {**vars, **slots}.items():
        r0 = loop.slot_entry.get(n)
        if isinstance(r, Votes) and isinstance(r0, Votes):
            out += [(f"{n}: votes of the rows seen", count(r, g["key"]) - count(r0, g["key"]) == m.votes(i.e))]
    return out


def update_votes(ctx):
    zero = ctx.branch(ctx.fresh("pad label left out", B), "pad label left out")
    col, lab = labeler_column(ctx, zero)
    has = ctx.fresh("labels that count", z3.ArraySort(K, B))
    mx = ctx.fresh("max sample", I)
    ctx.assume(mx > 0)
    col._max_sample_size = SymNum(mx, "int")
    q = ctx.fresh("a label", I)
    key = ctx.fresh("name of a label", K)
    ctx.run.ghosts = {"lo": 1 if zero else 0, "label": q, "key": key, "has": has, "threshold": lit(col._min_voting_prob), "labeler": lab}
    v = Votes(has, ctx.fresh("votes before", z3.ArraySort(K, I)), None, "votes before", total=ctx.fresh("votes.total", I))
    col._rank_distribution = v
    s0 = ctx.fresh("sum before", R)
    col._sum_predictions = Vec(s0, 1 if zero else 0)
    v0, n0 = count(v, key), num_expr(col.sample_size)
    rows = ctx.fresh("rows", I)
    ctx.assume(rows >= 0)
    ctx.inputs["rows"] = SymNum(rows, "int")
    r = col.update(Cells(rows))
    ctx.alive()
    ctx.prove("the column is returned", r is col)
    after = col._rank_distribution
    if ctx.branch(rows == 0, "no rows"):
        ctx.prove("nothing counted", z3.And(count(after, key) == v0, num_expr(col.sample_size) == n0, col._sum_predictions.e == s0))
        return
    ctx.run.cover("counted")
    n = z3.If(rows < mx, rows, mx)
    ctx.prove("one sample of the rows is labelled", len(lab.got) == 1 and isinstance(lab.got[0], Cells) and lab.got[0].sampled)
    ctx.prove("as many as allowed", lab.got[0].n == n)
    ctx.prove("sample size", num_expr(col.sample_size) == n0 + n)
    ctx.prove("every cell votes for its most likely label if that is likely enough", count(after, key) - v0 == lab.conf.votes(n))
    ctx.prove("confidences are summed per label", z3.And(col._sum_predictions.e == s0 + lab.conf.colsum))


# ---------------------------------------------------------------- what is reported of the votes
NAMES = ["A", "B", "C", "D"]


def voted(ctx, name, col, k, none=False):
    col._possible_data_labels = NAMES[:k]
    if none:
        return [z3.IntVal(0)] * k, [z3.RealVal(0)] * k
    vs = [ctx.fresh(f"{name}.votes.{n}", I) for n in NAMES[:k]]
    ss = [ctx.fresh(f"{name}.sum.{n}", R) for n in NAMES[:k]]
    for n, v in zip(NAMES, vs):
        ctx.assume(v >= 0)
        ctx.inputs[f"{name} {n}"] = SymNum(v, "int")
    col._rank_distribution = {n: SymNum(v, "int") for n, v in zip(NAMES, vs)}
    col._sum_predictions = np.array([SymNum(s, "float", True) for s in ss], dtype=object)
    return vs, ss


def reported(ctx):
    col, lab = labeler_column(ctx, True)
    k = 4
    vs, ss = voted(ctx, "a", col, k)
    size = num_expr(col.sample_size)
    if ctx.branch(size == 0, "no cells"):
        ctx.prove("nothing seen: no label", col.data_label is None)
        ctx.prove("nothing seen: no averages", col.avg_predictions is None)
        ctx.prove("nothing seen: no representation", col.label_representation is None)
        return
    tot = z3.Sum(vs)
    rep = col.label_representation
    ctx.prove("every label is represented", list(rep) == NAMES[:k])
    if ctx.branch(tot == 0, "no votes"):
        for n in NAMES[:k]:
            ctx.prove_eq(f"share of {n} without votes", rep[n], 0)
        return
    ctx.run.cover("votes")
    for n, v in zip(NAMES, vs):
        ctx.prove_eq(f"share of the votes for {n}", rep[n], SymNum(z3.ToReal(v) / z3.ToReal(tot), "float"))
    avg = col.avg_predictions
    ctx.prove("every label has an average", list(avg) == NAMES[:k])
    for n, s in zip(NAMES, ss):
        ctx.prove_eq(f"average confidence of {n}", avg[n], SymNum(s / z3.ToReal(size), "float"))


def label(ctx):
    col, lab = labeler_column(ctx, True)
    k = 4
    vs, ss = voted(ctx, "a", col, k)
    ctx.assume(num_expr(col.sample_size) > 0)
    tot = z3.Sum(vs)
    ctx.assume(tot > 0)
    got = col.data_label
    ctx.alive()
    t = z3.ToReal(tot)
    p, d = lit(col._min_top_label_prob), lit(col._min_prob_differential)
    enough = z3.Or(*[z3.ToReal(v) >= p * t for v in vs])
    if got == "could not determine":
        ctx.run.cover("no label")
        ctx.prove("no label only if none has enough votes", z3.Not(enough))
        return
    ctx.run.cover("a label")
    ctx.prove("a label only if one has enough votes", enough)
    ls = got.split("|")
    ctx.prove("labels of the column, each once", len(set(ls)) == len(ls) and set(ls) <= set(NAMES[:k]) and len(ls) <= 3)
    by = dict(zip(NAMES, vs))
    first = by[ls[0]]
    ctx.prove("the first label has most votes", z3.And(*[first >= v for v in vs]))
    ctx.prove("in the order of their votes", z3.And(z3.BoolVal(True), *[by[a] >= by[b] for a, b in zip(ls, ls[1:])]))
    ctx.prove("labels listed are close to the first", z3.And(*[z3.ToReal(first) - z3.ToReal(by[l]) <= d * t for l in ls]))
    rest = [v for n, v in by.items() if n not in ls]
    if len(ls) < 3:
        ctx.prove("labels not listed are not close", z3.And(*[z3.ToReal(first) - z3.ToReal(v) > d * t for v in rest]))
    else:
        ctx.prove("labels not listed have no more votes", z3.And(*[by[ls[-1]] >= v for v in rest]))


def merged(ctx):
    zero = True
    a, lab = labeler_column(ctx, zero, "a")
    b, _ = labeler_column(ctx, zero, "b")
    b.data_labeler = lab
    k = 3
    na = ctx.branch(ctx.fresh("a never updated", B), "a never updated")
    nb = ctx.branch(ctx.fresh("b never updated", B), "b never updated")
    va, sa = voted(ctx, "a", a, k, na)
    vb, sb = voted(ctx, "b", b, k, nb)
    for none, c in ((na, a), (nb, b)):
        ctx.assume(num_expr(c.sample_size) == 0 if none else num_expr(c.sample_size) > 0)
    n = num_expr(a.sample_size) + num_expr(b.sample_size)
    keep = [(c, c._rank_distribution, dict(c._rank_distribution) if c._rank_distribution is not None else None, c._sum_predictions) for c in (a, b)]
    r = a + b
    ctx.alive()
    ctx.run.cover("merged")
    ctx.prove("a new column", r is not a and r is not b and type(r) is type(a))
    ctx.prove("sample sizes add up", num_expr(r.sample_size) == n)
    for c, d, d0, s in keep:
        ctx.prove("operands keep their votes", c._rank_distribution is d and (d is None or list(d) == list(d0) and all(d[x] is d0[x] for x in d)) and c._sum_predictions is s)
    ctx.prove("the same labels", r.possible_data_labels == NAMES[:k])
    for at in ("_top_k_voting", "_min_voting_prob", "_min_prob_differential", "_top_k_labels", "_min_top_label_prob", "_max_sample_size"):
        ctx.prove(f"{at} is kept", getattr(r, at) == getattr(a, at))
    rd = r._rank_distribution
    if na and nb:
        ctx.prove("nothing voted", rd is None or all(v == 0 for v in rd.values()))
        return
    ctx.prove("votes of all labels", set(rd) == set(NAMES[:k]))
    for j, x in enumerate(NAMES[:k]):
        ctx.prove_eq(f"votes for {x} add up", rd[x], SymNum(va[j] + vb[j], "int"))
        ctx.prove_eq(f"confidences of {x} add up", r._sum_predictions[j], SymNum(sa[j] + sb[j], "float"))


PROOFS.update({"labels of cells": (cell_labels, {"covers": ["labelled", "most frequent"]}),
               "votes of a batch": (update_votes, {"loop_specs": [vote_invariants], "covers": ["counted"]}),
               "shares and averages": (reported, {"covers": ["votes"]}),
               "label of a column": (label, {"covers": ["a label", "no label"]}),
               "merging votes": (merged, {"covers": ["merged"]})})
ASSUMPTIONS += ["np.argpartition(kth=-1, axis=1) puts a column of the row's maximum last; np.sum and np.delete along an axis as documented",
                "Counter counts the labels of exactly the characters it is given; Series.sample(k) draws k of the rows"]


# ---------------------------------------------------------------- from samples back to texts
class Layout:
    """texts laid out in samples: text d occupies [start(d), start(d) + len(d)) of the concatenated samples, followed by a separator
    unless the sample ends there; cut(d) sample ends lie at or before its end"""

    def __init__(self, ctx, sep):
        self.m, self.k, self.sep = ctx.fresh("texts", I), ctx.fresh("samples", I), sep
        ctx.assume(z3.And(self.m >= 0, self.k >= 0, sep >= 0))
        self.len, self.start, self.cut = z3.Function("length", I, I), z3.Function("start", I, I), z3.Function("ends before", I, I)
        self.end = z3.Function("sample end", I, I)
        a, b = z3.Ints("a! b!")
        ctx.assume(self.start(0) == 0)
        ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.k), self.end(a) < self.end(b)),
                             patterns=[z3.MultiPattern(self.end(a), self.end(b))]))
        ctx.assume(z3.Implies(self.k > 0, self.end(0) > 0))

    def step(self, d):
        """facts of text d: what the preprocessor guarantees of its samples"""
        e, j, c = self.start(d) + self.len(d), self.cut(d), Ctx.cur
        at_end = z3.And(j > 0, self.end(j - 1) == e)
        c.assume(z3.And(self.len(d) >= 0, 0 <= j, j <= self.k, z3.Or(j == 0, self.end(j - 1) <= e), z3.Or(j == self.k, self.end(j) > e)))
        c.assume(z3.Implies(self.len(d) > 0, z3.Or(at_end, z3.And(j < self.k, self.end(j) > e + self.sep))))
        c.assume(self.start(d + 1) == e + z3.If(z3.Or(self.len(d) == 0, at_end), 0, self.sep))


class Laid(Sym):
    """the texts"""

    def __init__(self, lay):
        self.lay = lay

    def _dv_len(self):
        return SymNum(self.lay.m, "int")

    def at(self, d):
        e = num_expr(d)
        self.lay.step(e)
        return LaidText(self.lay, e)

    def __getitem__(self, d):
        return self.at(d)

    def _dv_iter(self):
        return SymIter(SymNum(self.lay.m, "int"), self.at, self)

    def _dv_map(self, f):
        return Mapped(self, f)

    def _dv_comp(self, kind, elt, cond):
        if kind not in ("list", "gen") or cond is not None:
            Ctx.cur.stop(Unsupported("comprehension over the texts"))
        return Mapped(self, elt)


class LaidText(Sym):
    rep_type = str

    def __init__(self, lay, d):
        self.lay, self.d = lay, d

    def _dv_str(self):
        return self

    def _dv_len(self):
        return SymNum(self.lay.len(self.d), "int")


class Mapped(Sym):
    rep_type = list

    def __init__(self, seq, f):
        self.seq, self.f = seq, f

    def _dv_list(self):
        return self

    def __getitem__(self, d):
        return self.f(self.seq.at(d))

    def _dv_len(self):
        return self.seq._dv_len()

    def _dv_iter(self):
        return SymIter(self._dv_len(), lambda d: self[d], self.seq)


class Parts(Sym):
    """results of the samples"""

    def __init__(self, lay, what):
        self.lay, self.what = lay, what

    def __bool__(self):
        return Ctx.cur.branch(self.lay.k > 0, "some samples")

    def _dv_len(self):
        return SymNum(self.lay.k, "int")

    def _dv_map(self, f):
        return Lens(self.lay)

    def _dv_comp(self, kind, elt, cond):
        r = elt(OnePart(self.lay))
        if kind in ("list", "gen") and cond is None and isinstance(r, SymNum) and r.e.eq(self.lay.mark):
            return Lens(self.lay)
        Ctx.cur.stop(Unsupported("comprehension over the samples"))

    def __deepcopy__(self, memo):
        return self


class OnePart(Sym):
    def __init__(self, lay):
        lay.mark = Ctx.cur.fresh("length of a sample", I)
        self.lay = lay

    def _dv_len(self):
        return SymNum(self.lay.mark, "int")


class Lens(Sym):
    def __init__(self, lay):
        self.lay = lay

    def _dv_list(self):
        return self


class Ends(Sym):
    """the ends of the samples from number h on"""
    rep_type = list

    def __init__(self, lay, h=None):
        self.lay, self.h = lay, z3.IntVal(0) if h is None else h

    def tolist(self):
        return self

    def __bool__(self):
        return Ctx.cur.branch(self.h < self.lay.k, "ends left")

    def _dv_len(self):
        return SymNum(self.lay.k - self.h, "int")

    def __getitem__(self, i):
        c = Ctx.cur
        if i != 0:
            c.stop(Unsupported("other end of a sample"))
        if not c.branch(self.h < self.lay.k, "ends left"):
            raise IndexError("list index out of range")
        return SymNum(self.lay.end(self.h), "int")

    def pop(self, i=-1):
        r = self[i]
        self.h = self.h + 1
        return r

    def _dv_content(self):
        return (z3.simplify(self.h).get_id(),)

    def _dv_freeze(self):
        return Ends(self.lay, self.h)

    def _dv_havoc(self, loop, path):
        self.h = Ctx.cur.fresh(path + ".number", I)
        Ctx.cur.assume(z3.And(self.h >= 0, self.h <= self.lay.k))


class Buffer(Sym):
    def __init__(self, what):
        self.what = what

    def __getitem__(self, s):
        if isinstance(s, slice) and s.step is None:
            return Piece(self.what, num_expr(s.start if s.start is not None else 0), num_expr(s.stop))
        Ctx.cur.stop(Unsupported("part of the buffer"))


class Piece(Sym):
    def __init__(self, what, a, b):
        self.what, self.a, self.b = what, a, b


class Repeated(list):
    """[empty] * number of texts"""

    def __mul__(self, n):
        return Stored() if isinstance(n, SymNum) else list(self) * n

    __rmul__ = __mul__


class Stored(Sym):
    """results by text; what text g got"""
    rep_type = list

    def __init__(self, a=None, b=None, what=None):
        self.a, self.b = (z3.IntVal(0), z3.IntVal(0)) if a is None else (a, b)
        self.what = set(what or ())

    def __setitem__(self, d, v):
        c = Ctx.cur
        if not isinstance(v, Piece):
            c.stop(Unsupported("other result of a text"))
        hit = num_expr(d) == c.run.ghosts["g"]
        self.a, self.b = z3.If(hit, v.a, self.a), z3.If(hit, v.b, self.b)
        self.what.add(v.what)

    def _dv_content(self):
        return (self.a.get_id(), self.b.get_id())

    def _dv_freeze(self):
        return Stored(self.a, self.b, self.what)

    def _dv_havoc(self, loop, path):
        self.a, self.b = Ctx.cur.fresh(path + ".from", I), Ctx.cur.fresh(path + ".to", I)


class NPL:
    def __init__(self, base):
        self.base = base

    def __getattr__(self, n):
        return getattr(self.base, n)

    def array(self, x, *a, **k):
        return self.base.array([] if isinstance(x, Spans) and not x.sym and not x.native else x, *a, **k)

    def cumsum(self, x, *a, **k):
        return Ends(x.lay) if isinstance(x, Lens) else self.base.cumsum(x, *a, **k)

    def concatenate(self, x, *a, **k):
        return Buffer(x.what) if isinstance(x, Parts) else self.base.concatenate(x, *a, **k)


def layout_invariants(loop, vars, slots, i):
    g = Ctx.cur.run.ghosts
    lay = g.get("layout")
    if lay is None:
        return []
    out = []
    ends = [(n, v) for n, v in slots.items() if isinstance(v, Ends)]
    frozen = [(n, v) for n, v in loop.locs0.items() if isinstance(v, Ends) and n not in loop.slot_entry]
    if i is not None:
        o = lay.start(i.e)
        for n, v in vars.items():
            if isinstance(v, (SymNum, int)) and not isinstance(v, bool):
                out.append((f"{n}: start of the next text", num_expr(v) == o))
        for n, v in ends:
            out.append((f"{n}: the ends after the start of the next text", z3.And(v.h >= 0, v.h <= lay.k, z3.Or(v.h == 0, lay.end(v.h - 1) <= o), z3.Or(v.h == lay.k, lay.end(v.h) > o))))
        q = g["g"]
        for n, v in slots.items():
            if isinstance(v, Stored):
                mine = z3.And(v.a == lay.start(q), v.b == lay.start(q) + lay.len(q))
                out += [(f"{n}: text g", z3.If(z3.And(q < i.e, lay.len(q) > 0), mine, v.a == v.b))]
        return out
    # the inner loop: ends at or before the position reached
    pos = [(n, v) for n, v in loop.locs0.items() if isinstance(v, SymNum) and n not in loop.entry and v.e.sort() == I]
    for n, v in ends:
        h0 = loop.slot_entry[n].h
        out.append((f"{n}: advanced", v.h >= h0))
        for pn, p in pos:
            out.append((f"{n}: ends passed are before {pn}", z3.Or(v.h == 0, lay.end(v.h - 1) <= p.e)))
        for m, c in vars.items():
            if isinstance(c, SymNum):
                out.append((f"{m}: the last end passed, or the next", c.e == z3.If(v.h == h0, lay.end(v.h), lay.end(v.h - 1))))
    return out


def back_to_texts(cls_name):
    def run(ctx):
        mod = env().mod("labelers.data_processing")
        lists(mod)
        d = mod.__dict__["__dv__"]
        d.mklist = lambda x: Spans() if not x else (Repeated(x) if len(x) == 1 and isinstance(x[0], np.ndarray) and x[0].size == 0 else x)
        if not isinstance(mod.np, NPL):
            mod.np = NPL(mod.np)
        f = need(getattr(mod, cls_name), "match_sentence_lengths")
        sep = ctx.fresh("separator length", I)
        ctx.run.ghosts = {}
        ctx.by_patterns = True
        lay = Layout(ctx, sep)
        g = ctx.fresh("g", I)
        ctx.assume(z3.And(0 <= g, g < lay.m))
        lay.step(g)
        ctx.run.ghosts.update({"layout": lay, "g": g})
        ctx.inputs["texts"], ctx.inputs["samples"] = SymNum(lay.m, "int"), SymNum(lay.k, "int")
        conf = ctx.branch(ctx.fresh("with confidences", B), "with confidences")
        inplace = ctx.branch(ctx.fresh("in place", B), "in place")
        res = {"pred": Parts(lay, "pred")}
        if conf:
            res["conf"] = Parts(lay, "conf")
        before = dict(res)

        class Sep(Sym):
            rep_type = str

            def _dv_len(self):
                return SymNum(sep, "int")
        out = f(Laid(lay), res, Sep(), inplace=inplace)
        ctx.alive()
        ctx.run.cover("matched")
        if not inplace:
            ctx.prove("the results passed in are left alone", out is not res and res == before)
        ctx.prove("predictions and confidences only", set(out) == set(before))
        for key in before:
            s = out[key]
            ctx.prove(f"{key}: one result per text", isinstance(s, Stored) and s.what <= {key})
            ctx.prove(f"{key}: every text gets the results of its own characters", z3.If(lay.len(g) > 0, z3.And(s.a == lay.start(g), s.b == lay.start(g) + lay.len(g)), s.a == s.b))
    return run


for _c in ("CharPostprocessor", "StructCharPostprocessor"):
    PROOFS[f"back to texts ({_c})"] = (back_to_texts(_c), {"loop_specs": [layout_invariants], "covers": ["matched"]})
ASSUMPTIONS += ["matching results to texts relies on what the preprocessor guarantees of its samples (texts in order, a separator after a text exactly where its sample goes on, "
                "and then at least one more character): this is checked by the bounded round trip contract"]

"""P12: characters, words and entities of text.

Ghost: how often every character / word occurs in a batch (functions of the key).  lower(k) is an unknown idempotent function."""
from __future__ import annotations

import collections
import itertools
import string

from .common import *
from .p06 import CI, Counts, fa, is_counts
from dv import keymaps
from dv.core import Sym, lit, need
from dv.keymaps import B, I, K, Enum, KeyMap, SymKey, key_dicts, k_
from dv.loops import SymIter

LOWER = z3.Function("lower", K, K)
NONEMPTY = z3.Function("not.empty", K, B)
ISLOWER = z3.Function("islower", K, B)
TOLD = "_lower_axioms"


def lower_axioms(ctx):
    if not ctx.__dict__.get(TOLD):
        ctx.__dict__[TOLD] = True
        ctx.assume(z3.ForAll([k_], LOWER(LOWER(k_)) == LOWER(k_), patterns=[LOWER(k_)]))
        ctx.assume(z3.ForAll([k_], z3.Implies(ISLOWER(k_), LOWER(k_) == k_), patterns=[ISLOWER(k_)]))


def key_lower(self):
    lower_axioms(Ctx.cur)
    keymaps.about(LOWER(self.e))
    return SymKey(LOWER(self.e))


def key_bool(self):
    return Ctx.cur.branch(NONEMPTY(self.e), "word not empty")


def key_islower(self):
    lower_axioms(Ctx.cur)
    return Ctx.cur.branch(ISLOWER(self.e), "islower")


class Bagged(KeyMap):
    """collections.Counter over symbolic keys; its counts are positive"""
    rep_type = collections.Counter
    facts = True

    def copy(self):
        m = Bagged(self.has, self.val, None, self.name, self.native)
        m.facts = self.facts
        m.rep_type = self.rep_type
        return m

    def __getitem__(self, k):
        e = self._key(k)
        if e is None:
            return self.native.get(k, 0)
        return SymNum(z3.If(z3.Select(self.has, e), z3.Select(self.val, e), z3.IntVal(0)), "int")

    def _plus(self, o):
        c = Ctx.cur
        if not isinstance(o, Bagged) or self.native or o.native:
            c.stop(Unsupported("counter + " + type(o).__name__))
        has, val = c.fresh("sum.has", z3.ArraySort(K, B)), c.fresh("sum.val", CI)
        s = count(self, k_) + count(o, k_)
        c.assume(z3.ForAll([k_], z3.Select(has, k_) == (s > 0), patterns=[z3.Select(has, k_)]))
        c.assume(z3.ForAll([k_], z3.Select(val, k_) == s, patterns=[z3.Select(val, k_)]))
        return has, val

    def __add__(self, o):
        return Bagged(*self._plus(o), None, "sum")

    def __iadd__(self, o):
        self.has, self.val = self._plus(o)
        return self

    def update(self, o=None, **k):
        c = Ctx.cur
        if isinstance(o, KeyMap) and not k and not o.native and not self.native:
            if o.name == "display":
                e = getattr(o, "keys_set", None)
                if e is not None and len(e) == 1:
                    self[SymKey(e[0])] = self[SymKey(e[0])] + SymNum(z3.Select(o.val, e[0]), "int")
                    return
            has, val = c.fresh("sum.has", z3.ArraySort(K, B)), c.fresh("sum.val", CI)
            s = count(self, k_) + count(o, k_)
            c.assume(z3.ForAll([k_], z3.Select(has, k_) == z3.Or(z3.Select(self.has, k_), z3.Select(o.has, k_)), patterns=[z3.Select(has, k_)]))
            c.assume(z3.ForAll([k_], z3.Select(val, k_) == s, patterns=[z3.Select(val, k_)]))
            self.has, self.val = has, val
            return
        c.stop(Unsupported("update of a counter"))

    def most_common(self, n=None):
        return Top(self, n)


class Top(Sym):
    """the n most common entries; only asked for in reports"""

    def __init__(self, m, n):
        self.m, self.n = m, n

    def _dv_dict(self, **k):
        return self


def count(m, k):
    return z3.If(z3.Select(m.has, k), z3.Select(m.val, k), z3.IntVal(0))


class StopWords(Sym):
    """a set of words"""
    rep_type = set

    def __init__(self, has):
        self.has = has

    def _dv_contains(self, k):
        if not isinstance(k, SymKey):
            Ctx.cur.stop(Unsupported("membership of a concrete word"))
        return Ctx.cur.branch(z3.Select(self.has, k.e), "a stop word")

    __contains__ = _dv_contains

    def _both(self, o):
        c = Ctx.cur
        h = c.fresh("stop", z3.ArraySort(K, B))
        c.assume(z3.ForAll([k_], z3.Select(h, k_) == z3.Or(z3.Select(self.has, k_), z3.Select(o.has, k_)), patterns=[z3.Select(h, k_)]))
        return StopWords(h)

    def union(self, o):
        return self._both(o)

    __or__ = union

    def _same(self, o):
        """equal sets? one path each"""
        c = Ctx.cur
        s, w = c.fresh("same stop words", B), c.fresh("other word", K)
        if c.branch(s, "same stop words"):
            c.assume(z3.ForAll([k_], z3.Select(self.has, k_) == z3.Select(o.has, k_), patterns=[z3.Select(self.has, k_)]))
            c.assume(z3.ForAll([k_], z3.Select(self.has, k_) == z3.Select(o.has, k_), patterns=[z3.Select(o.has, k_)]))
            return True
        c.assume(z3.Select(self.has, w) != z3.Select(o.has, w))
        return False

    def __eq__(self, o):
        return self._same(o)

    def __ne__(self, o):
        return not self._same(o)

    def __hash__(self):
        return id(self)

    def copy(self):
        return StopWords(self.has)

    def _dv_len(self):
        c = Ctx.cur
        n = c.fresh("stop.words", I)
        c.assume(n >= 0)
        return SymNum(n, "int")


# ---------------------------------------------------------------- a batch of texts
class Texts(Sym):
    """lines of text; what is asked of them: all characters, and all words under a way of cutting and trimming"""

    def __init__(self, ctx):
        self.n = ctx.fresh("lines", I)
        ctx.assume(self.n >= 0)
        self.chars = Counts(ctx, "characters")
        self.words = {True: Counts(ctx, "words"), False: Counts(ctx, "lower case words")}

    def _dv_len(self):
        return SymNum(self.n, "int")

    def _dv_comp(self, kind, elt, cond):
        if cond is not None:
            Ctx.cur.stop(Unsupported("selection of lines"))
        r = elt(Line(self))
        if isinstance(r, Line):
            return r
        if not isinstance(r, Word):
            Ctx.cur.stop(Unsupported("comprehension over lines"))
        return r

    def __iter__(self):
        yield Line(self)      # only reached by itertools.chain(*lines)


class Line(Sym):
    """an arbitrary line, perhaps in lower case"""
    rep_type = str

    def __init__(self, t, low=False):
        self.t, self.low = t, low

    def lower(self):
        return Line(self.t, True)

    def split(self, *a):
        if a and a != (None,):
            Ctx.cur.stop(Unsupported("words cut at something else than whitespace"))
        return Word(self.t, self.low)


class Word(Sym):
    """an arbitrary word of an arbitrary line, trimmed or not; also the collection of all of them"""
    rep_type = str

    def __init__(self, t, low, trim=None):
        self.t, self.low, self.trim = t, low, trim

    def lower(self):
        return Word(self.t, True, self.trim)

    def strip(self, *a):
        return Word(self.t, self.low, a[0] if a else self.trim)

    def _dv_comp(self, kind, elt, cond):
        if cond is not None:
            Ctx.cur.stop(Unsupported("selection of words"))
        r = elt(self)
        if not isinstance(r, Word):
            Ctx.cur.stop(Unsupported("comprehension over words"))
        return r


class Flat(Sym):
    def __init__(self, c):
        self.c = c

    def _dv_list(self):
        return self


class Chain:
    def __call__(self, *a):
        if len(a) == 1 and isinstance(a[0], Line):
            return Flat(a[0].t.chars) if not a[0].low else Ctx.cur.stop(Unsupported("characters in lower case"))
        return itertools.chain(*a)

    def from_iterable(self, w):
        if isinstance(w, Word):
            if w.trim != string.punctuation:
                Ctx.cur.stop(Unsupported("words trimmed otherwise"))
            return Flat(w.t.words[not w.low])
        if isinstance(w, Texts):
            return Flat(w.chars)
        return itertools.chain.from_iterable(w)


def counter(*a, **k):
    ctx = Ctx.cur
    if a and isinstance(a[0], Flat):
        m = a[0].c.map(ctx, "batch")
        return Bagged(m.has, m.val, None, "batch")
    if a and isinstance(a[0], KeyMap):
        return Bagged(a[0].has, a[0].val, None, "copy")
    if a or k:
        ctx.stop(Unsupported("Counter of " + type(a[0]).__name__))
    return Bagged(name="counter")


def module():
    m = env().mod("profilers.unstructured_text_profile")
    if not hasattr(m, "_dv_keys"):
        m._dv_keys = True
        key_dicts(m)
        m.__dict__["__dv__"].set = lambda *a: a[0].copy() if a and isinstance(a[0], StopWords) else set(*a)
        ns = type("itertools", (), {"chain": Chain(), "__getattr__": lambda s, n: getattr(itertools, n)})()
        for n, v in list(vars(m).items()):
            if v is itertools:
                setattr(m, n, ns)
            elif v is collections.Counter:
                setattr(m, n, counter)
            elif v is itertools.chain:
                setattr(m, n, Chain())
    return m


def text(ctx, name, chars, words, case, calc=("vocab", "words")):
    m = module()
    SymKey.lower, SymKey.__bool__, SymKey.islower = key_lower, key_bool, key_islower
    po = env().mod("profilers.profiler_options")
    o = po.TextProfilerOptions()
    for k in ("vocab", "words"):
        getattr(o, k).is_enabled = k in calc
    t = m.TextProfiler("x", options=o)
    t.name = "x"
    t.sample_size = SymNum(ctx.fresh(name + ".lines", I), "int")
    ctx.assume(t.sample_size.e >= 0)
    t._is_case_sensitive = case
    for at, c in (("vocab_count", chars), ("word_count", words)):
        mm = c.map(ctx, f"{name}.{at}")
        setattr(t, at, Bagged(mm.has, mm.val, None, name + "." + at))
    t._stop_words = StopWords(ctx.fresh(name + ".stop", z3.ArraySort(K, B)))
    return t


def holds(ctx, what, m, f):
    """obligation: the counter holds exactly the counts f(k) > 0"""
    if not isinstance(m, KeyMap):
        ctx.stop(Unsupported(f"{what}: {type(m).__name__}"))
    ctx.prove(f"{what}: nothing lost, nothing added", fa(z3.Select(m.has, k_) == (f(k_) > 0)))
    ctx.prove(f"{what}: exact counts", fa(z3.Implies(f(k_) > 0, z3.Select(m.val, k_) == f(k_))))


def word_invariants(loop, vars, slots, i):
    """annotations by type: a counter filled (or pruned) from an enumerated one"""
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(src, Enum):
        return out
    c = Ctx.cur
    done = z3.And(z3.Select(src.has, k_), z3.Select(src.ix, k_) < i.e)
    v = z3.Select(src.val, k_)
    stops = {n: x for n, x in c.run.ghosts.get("stops", {}).items()}
    T = folded(src, i.e)
    for n, r in slots.items():
        r0 = loop.slot_entry.get(n)
        if not isinstance(r, KeyMap) or not isinstance(r0, KeyMap):
            continue
        h, w, h0, w0 = z3.Select(r.has, k_), z3.Select(r.val, k_), z3.Select(r0.has, k_), z3.Select(r0.val, k_)

        def cand(nm, body):
            out.append((f"{n}: {nm}", z3.ForAll([k_], body)))
        for sn, st in stops.items():
            s = st(k_)
            cand(f"gains the words seen that are not {sn}", z3.And(h == z3.Or(h0, z3.And(done, NONEMPTY(k_), z3.Not(s))),
                                                                   z3.Implies(h, w == count(r0, k_) + z3.If(z3.And(done, NONEMPTY(k_), z3.Not(s)), v, 0))))
            cand(f"loses the words seen that are {sn}", z3.And(h == z3.And(h0, z3.Not(z3.And(done, s))), w == w0))
        if T is not None:
            t = z3.Select(T, k_)
            rest = z3.If(z3.And(h0, z3.Not(done)), w0, z3.IntVal(0))
            cand("words seen are under their lower case", z3.And(h == (t + rest > 0), z3.Implies(h, w == t + rest)))
            cand("words seen collected under their lower case", z3.And(h == (t > 0), z3.Implies(h, w == t)))
    if T is not None:
        out.append(("lower case forms only", z3.ForAll([k_], z3.And(z3.Select(T, k_) >= 0, z3.Implies(LOWER(k_) != k_, z3.Select(T, k_) == 0)))))
    return out


def folded(src, i):
    """ghost: counts of the first i words under their lower case; at i+1 unfolded once"""
    c = Ctx.cur
    if not c.run.ghosts.get("fold"):
        return None
    memo = c.__dict__.setdefault("_folds", {})
    if id(src) not in memo:
        memo[id(src)] = (src, c.fresh("folded", z3.ArraySort(I, CI)))
    a, i = memo[id(src)][1], z3.simplify(i)
    c.run.ghosts["fold"].append((src, a))
    if z3.is_int_value(i) and i.as_long() == 0:
        return z3.K(K, z3.IntVal(0))
    if z3.is_add(i) and i.num_args() == 2 and z3.is_int_value(i.arg(0)) and i.arg(0).as_long() == 1:
        j = i.arg(1)
        t, k = z3.Select(a, j), z3.Select(src.ks, j)
        return z3.Store(t, LOWER(k), z3.Select(t, LOWER(k)) + z3.Select(src.val, k))
    return z3.Select(a, i)


def update(ctx):
    case = ctx.choose([True, False], "case sensitive")
    calc = ctx.choose([("vocab", "words"), ("vocab",), ("words",)], "enabled")
    chars, words = Counts(ctx, "seen characters"), Counts(ctx, "seen words")
    t = text(ctx, "before", chars, words, case, calc)
    st = t._stop_words
    ctx.run.ghosts = {"stops": {"stop words": lambda k: z3.Select(st.has, LOWER(k))}}
    lower_axioms(ctx)
    b = Texts(ctx)
    n0 = t.sample_size
    r = t.update(b)
    ctx.alive()
    ctx.prove("update: returns the profile", r is t)
    ctx.prove_eq("update: lines", t.sample_size, SymNum(n0.e + b.n, "int"))
    ctx.prove("update: stop words unchanged", t._stop_words is st)
    if ctx.branch(b.n == 0, "no lines"):
        holds(ctx, "update with nothing: characters", t.vocab_count, chars.at)
        holds(ctx, "update with nothing: words", t.word_count, words.at)
        return
    ctx.run.cover("updated")
    holds(ctx, "update: characters", t.vocab_count, (lambda k: chars.at(k) + b.chars.at(k)) if "vocab" in calc else chars.at)
    new = b.words[case]

    def want(k):
        keep = z3.And(NONEMPTY(k), z3.Not(z3.Select(st.has, LOWER(k))))
        return words.at(k) + z3.If(keep, new.at(k), z3.IntVal(0))
    holds(ctx, "update: words", t.word_count, want if "words" in calc else words.at)


def merge(ctx):
    ca, cb = ctx.choose([True, False], "first case sensitive"), ctx.choose([True, False], "second case sensitive")
    v1, v2, w1, w2 = (Counts(ctx, n) for n in ("characters1", "characters2", "words1", "words2"))
    a, b = text(ctx, "first", v1, w1, ca), text(ctx, "second", v2, w2, cb)
    lower_axioms(ctx)
    s1, s2 = a._stop_words, b._stop_words
    # class invariant: no stop word is counted, and a case insensitive profile holds lower case words
    for w, s, cs in ((w1, s1, ca), (w2, s2, cb)):
        ctx.assume(z3.ForAll([k_], z3.Implies(w.at(k_) > 0, z3.Not(z3.Select(s.has, LOWER(k_)))), patterns=[w.at(k_)]))
        if not cs:
            ctx.assume(z3.ForAll([k_], z3.Implies(w.at(k_) > 0, LOWER(k_) == k_), patterns=[w.at(k_)]))
    stop = lambda k: z3.Or(z3.Select(s1.has, LOWER(k)), z3.Select(s2.has, LOWER(k)))
    ctx.run.ghosts = {"stops": {"stop words of either": stop}}
    if ca != cb:
        ctx.run.ghosts["fold"] = ["on"]
    # top entries are only distinguished where the rest is simplest
    ka, kb = (ctx.choose([None, 3], f"{x} top words") if ca and cb else 3 for x in ("first", "second"))
    a._top_k_words, b._top_k_words = ka, 5 if kb else None
    a._top_k_chars, b._top_k_chars = ka, 5 if kb else None
    old = [(x.vocab_count, x.vocab_count.has, x.vocab_count.val, x.word_count, x.word_count.has, x.word_count.val, x._stop_words, x.sample_size) for x in (a, b)]
    r = a + b
    ctx.alive()
    for x, o in zip((a, b), old):
        now = (x.vocab_count, x.vocab_count.has, x.vocab_count.val, x.word_count, x.word_count.has, x.word_count.val, x._stop_words, x.sample_size)
        ctx.prove("merge: operands unchanged", all(p is q for p, q in zip(now, o)))
        ctx.prove("merge: counters are new", r.vocab_count is not x.vocab_count and r.word_count is not x.word_count)
    ctx.prove("merge: case sensitive when both are", r._is_case_sensitive is (ca and cb))
    ctx.prove("merge: top entries", (r._top_k_words, r._top_k_chars) == ((5, 5) if ka and kb else (None, None)))
    ctx.prove_eq("merge: lines", r.sample_size, SymNum(a.sample_size.e + b.sample_size.e, "int"))
    if not isinstance(r._stop_words, StopWords):
        ctx.stop(Unsupported("stop words " + type(r._stop_words).__name__))
    ctx.prove("merge: stop words of both", fa(z3.Select(r._stop_words.has, k_) == z3.Or(z3.Select(s1.has, k_), z3.Select(s2.has, k_))))
    holds(ctx, "merge: characters", r.vocab_count, lambda k: v1.at(k) + v2.at(k))
    kept = lambda k: z3.If(stop(k), z3.IntVal(0), w1.at(k) + w2.at(k))
    if ca == cb:
        ctx.run.cover("same case")
        holds(ctx, "merge: words", r.word_count, kept)
        return
    ctx.run.cover("mixed case")
    f = [x for x in ctx.run.ghosts["fold"] if not isinstance(x, str)]
    if not f:
        ctx.stop(Unsupported("words are not brought to lower case in a loop over them"))
    src, arr = f[-1]
    holds(ctx, "merge: the words brought to lower case", KeyMap(src.has, src.val), kept)
    T = z3.Select(arr, src.n)
    holds(ctx, "merge: words under their lower case", r.word_count, lambda k: z3.Select(T, k))


# ---------------------------------------------------------------- entities
QL = z3.Const("label?", K)          # an arbitrary label
R = z3.RealSort()


class Tally(KeyMap):
    """defaultdict(int) over labels with a ghost sum of all counts"""
    rep_type = collections.defaultdict

    def __init__(self, has=None, val=None, default=None, name="tally", native=None, total=None):
        super().__init__(has, val, default, name, native)
        self.rep_type = collections.defaultdict
        self.total = total if total is not None else z3.IntVal(0)

    def copy(self):
        return Tally(self.has, self.val, self.default_factory, self.name, self.native, self.total)

    def __setitem__(self, k, v):
        e = self._key(k)
        old = count(self, e)
        super().__setitem__(k, v)
        self.total = self.total - old + num_expr(v)

    def _key(self, k):
        return LABEL_OF[k] if isinstance(k, str) else super()._key(k)

    def _dv_content(self):
        return super()._dv_content() + (self.total.get_id(),)

    def _dv_havoc(self, loop, path):
        super()._dv_havoc(loop, path)
        self.total = Ctx.cur.fresh(path + ".total", I)


LABEL_OF = {"UNKNOWN": z3.Const("UNKNOWN", K)}


class Ratios(KeyMap):
    """a dictionary of real numbers"""

    def __init__(self, has=None, val=None, default=None, name="ratios", native=None):
        super().__init__(has, val if val is not None else Ctx.cur.fresh(name, z3.ArraySort(K, R)), default, name, native)

    def _wrap(self, e):
        return SymNum(e, "float")

    def __setitem__(self, k, v):
        e = self._key(k)
        self.has = z3.Store(self.has, e, z3.BoolVal(True))
        self.val = z3.Store(self.val, e, to_real(num_expr(v)))

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.has, self.val = c.fresh(path + ".has", z3.ArraySort(K, B)), c.fresh(path + ".val", z3.ArraySort(K, R))

    def copy(self):
        return Ratios(self.has, self.val, None, self.name)


class Samples(Sym):
    """label indices of the characters of any number of texts"""

    def __init__(self, ctx):
        self.n = ctx.fresh("texts", I)
        ctx.assume(self.n >= 0)
        self.len = z3.Function("length", I, I)
        self.lab = z3.Function("label", I, I, K)
        self.cnt = z3.Function("label.count", I, I, I)       # of QL among the first i of text j
        self.all = z3.Function("label.total", I, I)          # of QL in the first j texts
        self.tot = z3.Function("characters", I, I)           # in the first j texts
        j, i = z3.Ints("j! i!")
        ctx.assume(z3.And(self.all(0) == 0, self.tot(0) == 0))

    def at(self, j):
        j = num_expr(j)
        c = Ctx.cur
        c.assume(z3.And(self.len(j) >= 0, self.cnt(j, 0) == 0, self.all(j + 1) == self.all(j) + self.cnt(j, self.len(j)),
                        self.tot(j + 1) == self.tot(j) + self.len(j)))
        return Sample(self, j)

    def _dv_iter(self):
        return SymIter(SymNum(self.n, "int"), self.at, self)

    def _dv_len(self):
        return SymNum(self.n, "int")


class Sample(Sym):
    def __init__(self, s, j):
        self.s, self.j = s, j

    def _dv_len(self):
        return SymNum(self.s.len(self.j), "int")

    def at(self, i):
        i = num_expr(i)
        s, c = self.s, Ctx.cur
        c.assume(s.cnt(self.j, i + 1) == s.cnt(self.j, i) + z3.If(s.lab(self.j, i) == QL, z3.IntVal(1), z3.IntVal(0)))
        return Index(s.lab(self.j, i))

    def _dv_iter(self):
        return SymIter(self._dv_len(), self.at, self)


class Index(Sym):
    """the number of a label"""
    rep_type = int

    def __init__(self, k):
        self.k = k

    def _dv_int(self):
        return self


class Lookup(Sym):
    """reverse label mapping: number -> label"""

    def __getitem__(self, i):
        if not isinstance(i, Index):
            Ctx.cur.stop(Unsupported("label of a concrete number"))
        return SymKey(i.k)


def tally_invariants(loop, vars, slots, i):
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(src, (Samples, Sample, Marked, Marks)):
        return out
    g = Ctx.cur.run.ghosts
    for n, r in {**vars, **slots}.items():
        r0 = loop.slot_entry.get(n)
        if isinstance(r, Tally) and isinstance(r0, Tally):
            d, t = count(r, QL) - count(r0, QL), r.total - r0.total
            if isinstance(src, Samples):
                out += [(f"{n}: labels of the texts seen", d == src.all(i.e)), (f"{n}: total", t == src.tot(i.e))]
            elif isinstance(src, Sample):
                out += [(f"{n}: labels of the characters seen", d == src.s.cnt(src.j, i.e)), (f"{n}: characters", t == i.e)]
            elif isinstance(src, Marked):
                out += [(f"{n}: characters of the texts seen", t == src.tot(i.e)), (f"{n}: of this label", d == src.all(i.e))]
            else:
                idx = vars.get("index")
                for vn, x in vars.items():
                    x0 = loop.entry.get(vn)
                    if isinstance(x, (SymNum, int)) and not isinstance(x, bool):
                        out.append((f"{n}: as many as {vn} advanced", t == num_expr(x) - num_expr(x0 if isinstance(x0, (SymNum, int)) else lit(0))))
                        out.append((f"{n}: {vn} is the end of the last entity", num_expr(x) == src.end(i.e)))
                out.append((f"{n}: of this label in the entities seen", d == src.m.part(src.j, i.e)))
        elif isinstance(r, SymNum):
            r0 = loop.slot_entry.get(n, loop.entry.get(n))
            if isinstance(r0, (SymNum, int)):
                if isinstance(src, (Samples, Marked)):
                    out.append((f"{n}: grows by the characters seen", num_expr(r) - num_expr(r0) == src.tot(i.e)))
    return out


class Marked(Sym):
    """texts with the entities found in them: (begin, end, label)"""

    def __init__(self, ctx):
        self.n = ctx.fresh("texts", I)
        ctx.assume(self.n >= 0)
        self.len = z3.Function("length", I, I)
        self.tot = z3.Function("characters", I, I)
        self.ents = z3.Function("entities", I, I)
        self.beg, self.end_ = z3.Function("begin", I, I, I), z3.Function("end", I, I, I)
        self.lab = z3.Function("entity.label", I, I, K)
        self.part = z3.Function("entity.part", I, I, I)    # characters of QL in the first i entities of text j, gaps counting as UNKNOWN
        self.all = z3.Function("entity.total", I, I)
        ctx.assume(z3.And(self.tot(0) == 0, self.all(0) == 0))

    def unknown(self, n):
        return z3.If(LABEL_OF["UNKNOWN"] == QL, n, z3.IntVal(0))

    def step(self, j):
        m = Marks(self, j)
        last = m.end(self.ents(j))
        Ctx.cur.assume(z3.And(self.len(j) >= 0, self.ents(j) >= 0, self.part(j, 0) == 0, self.tot(j + 1) == self.tot(j) + self.len(j),
                              self.all(j + 1) == self.all(j) + self.part(j, self.ents(j)) + self.unknown(self.len(j) - last)))
        return m


class Marks(Sym):
    def __init__(self, m, j):
        self.m, self.j = m, j

    def end(self, i):
        """end of the entity before number i"""
        return z3.If(i == 0, z3.IntVal(0), self.m.end_(self.j, i - 1))

    def at(self, i):
        i = num_expr(i)
        m, j = self.m, self.j
        Ctx.cur.assume(m.part(j, i + 1) == m.part(j, i) + m.unknown(m.beg(j, i) - self.end(i)) +
                       z3.If(m.lab(j, i) == QL, m.end_(j, i) - m.beg(j, i), z3.IntVal(0)))
        return (SymNum(m.beg(j, i), "int"), SymNum(m.end_(j, i), "int"), SymKey(m.lab(j, i)))

    def _dv_iter(self):
        return SymIter(SymNum(self.m.ents(self.j), "int"), self.at, self)

    def _dv_len(self):
        return SymNum(self.m.ents(self.j), "int")


class MarkedText(Sym):
    rep_type = str

    def __init__(self, m, j):
        self.m, self.j = m, j

    def _dv_len(self):
        return SymNum(self.m.len(self.j), "int")


class Side(Sym):
    """one of the two parallel sequences (texts / their entities)"""

    def __init__(self, m, text):
        self.m, self.text = m, text

    def at(self, j):
        j = num_expr(j)
        marks = self.m.step(j)
        return MarkedText(self.m, j) if self.text else marks

    def _dv_iter(self):
        return SymIter(SymNum(self.m.n, "int"), self.at, self.m)

    def _dv_len(self):
        return SymNum(self.m.n, "int")


def labeler(ctx, name):
    m = env().mod("profilers.unstructured_labeler_profile")
    po = env().mod("profilers.profiler_options")

    class Model:
        reverse_label_mapping = Lookup()
    o = po.DataLabelerOptions()
    model = Model()
    o.__dict__["data_labeler_object"] = model
    p = m.UnstructuredLabelerProfile(options=o)
    p.data_labeler = model
    for lv in ("word_level", "true_char_level", "postprocess_char_level"):
        p.entity_counts[lv] = Tally(ctx.fresh(f"{name}.{lv}.has", z3.ArraySort(K, B)), ctx.fresh(f"{name}.{lv}.val", CI), int, f"{name}.{lv}",
                                    total=ctx.fresh(f"{name}.{lv}.total", I))
    for at in ("char_sample_size", "word_sample_size"):
        x = SymNum(ctx.fresh(f"{name}.{at}", I), "int")
        ctx.assume(x.e >= 0)
        setattr(p, at, x)
    return p


def true_chars(ctx):
    p = labeler(ctx, "before")
    f = need(p, "_update_true_char_label_counts")
    t = p.entity_counts["true_char_level"]
    q0, t0, n0 = count(t, QL), t.total, p.char_sample_size.e
    others = [(lv, p.entity_counts[lv], p.entity_counts[lv].has, p.entity_counts[lv].val) for lv in ("word_level", "postprocess_char_level")]
    s = Samples(ctx)
    ctx.run.ghosts = {}
    f(s)
    ctx.alive()
    ctx.run.cover("counted")
    t = p.entity_counts["true_char_level"]
    ctx.prove("every label gains the characters predicted to have it", count(t, QL) == q0 + s.all(s.n))
    ctx.prove("the counts grow by the number of characters", t.total == t0 + s.tot(s.n))
    ctx.prove("characters seen", num_expr(p.char_sample_size) == n0 + s.tot(s.n))
    for lv, m, h, v in others:
        ctx.prove(f"{lv} is left alone", p.entity_counts[lv] is m and m.has.eq(h) and m.val.eq(v))


def post_chars(ctx):
    p = labeler(ctx, "before")
    f = need(p, "_update_postprocess_char_label_counts")
    t = p.entity_counts["postprocess_char_level"]
    q0, t0 = count(t, QL), t.total
    m = Marked(ctx)
    ctx.run.ghosts = {}
    f(Side(m, True), Side(m, False))
    ctx.alive()
    ctx.run.cover("counted")
    t = p.entity_counts["postprocess_char_level"]
    ctx.prove("the counts grow by the number of characters", t.total == t0 + m.tot(m.n))
    ctx.prove("every label gains the characters of its entities, the rest is unknown", count(t, QL) == q0 + m.all(m.n))


def share_invariants(loop, vars, slots, i):
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(src, Enum):
        return out
    done = z3.And(z3.Select(src.has, k_), z3.Select(src.ix, k_) < i.e)
    for n, r in slots.items():
        if isinstance(r, Ratios):
            g = Ctx.cur.run.ghosts["total"]
            out.append((f"{n}: shares of the labels seen", z3.ForAll([k_], z3.And(z3.Select(r.has, k_) == done,
                        z3.Implies(done, z3.Select(r.val, k_) == z3.ToReal(z3.Select(src.val, k_)) / g)))))
    return out


def shares(ctx):
    p = labeler(ctx, "before")
    m = env().mod("profilers.unstructured_labeler_profile")
    f = need(p, "_update_percentages")
    d = m.__dict__["__dv__"]
    import types
    if not getattr(d, "ratios", False):
        d = types.SimpleNamespace(**vars(d))
        d.ratios = True
        d.mkdict = lambda x: Ratios() if not x else x
        old = d.dict
        d.dict = lambda *a, **k: Ratios() if not a and not k else old(*a, **k)
        m.__dict__["__dv__"] = d
    ctx.run.ghosts = {}
    for lv, tot in (("word_level", p.word_sample_size), ("true_char_level", p.char_sample_size), ("postprocess_char_level", p.char_sample_size)):
        ctx.run.ghosts["total"] = z3.ToReal(tot.e)
        r = p._get_percentages(lv)
        ctx.alive()
        c = p.entity_counts[lv]
        if not isinstance(r, KeyMap):
            ctx.stop(Unsupported("shares: " + type(r).__name__))
        if ctx.branch(tot.e > 0, f"{lv}: something seen"):
            ctx.run.cover("shares")
            ctx.prove(f"{lv}: a share for every label counted", fa(z3.Select(r.has, k_) == z3.Select(c.has, k_)))
            ctx.prove(f"{lv}: count divided by all", fa(z3.Implies(z3.Select(c.has, k_), z3.Select(r.val, k_) == z3.ToReal(z3.Select(c.val, k_)) / z3.ToReal(tot.e))))
        else:
            ctx.prove(f"{lv}: nothing seen, no shares", r.concrete() and not r.native)


def merge_labels(ctx):
    from . import p06
    pu, _ = p06.mods()
    m = env().mod("profilers.unstructured_labeler_profile")
    pu.add_nested_dictionaries = p06.add_contract
    a, b = labeler(ctx, "first"), labeler(ctx, "second")
    b.data_labeler = a.data_labeler
    lvs = ("word_level", "true_char_level", "postprocess_char_level")
    old = []
    for x in (a, b):
        for lv in lvs:
            t = x.entity_counts[lv]
            x.entity_counts[lv] = KeyMap(t.has, t.val, int, t.name)
            old.append((x, lv, x.entity_counts[lv], t.has, t.val))
    m.UnstructuredLabelerProfile._update_percentages = lambda self: self.__dict__.__setitem__("_dv_shares", (dict(self.entity_counts), self.char_sample_size, self.word_sample_size))
    r = a + b
    ctx.alive()
    ctx.run.cover("merged")
    for lv in lvs:
        t, x, y = r.entity_counts[lv], a.entity_counts[lv], b.entity_counts[lv]
        ctx.prove(f"{lv}: labels of either", fa(z3.Select(t.has, k_) == z3.Or(z3.Select(x.has, k_), z3.Select(y.has, k_))))
        ctx.prove(f"{lv}: counts add", fa(count(t, k_) == count(x, k_) + count(y, k_)))
    for x, lv, t, h, v in old:
        ctx.prove("operands unchanged", x.entity_counts[lv] is t and t.has is h and t.val is v and r.entity_counts[lv] is not t)
    for at in ("char_sample_size", "word_sample_size"):
        ctx.prove_eq(f"{at} adds", getattr(r, at), SymNum(getattr(a, at).e + getattr(b, at).e, "int"))
    s = r.__dict__.get("_dv_shares")
    ctx.prove("shares are those of the merged counts", s is not None and all(s[0][lv] is r.entity_counts[lv] for lv in lvs) and
              s[1] is r.char_sample_size and s[2] is r.word_sample_size)


PROOFS = {"update": (update, {"loop_specs": [word_invariants], "covers": ["updated"]}),
          "labels of characters": (true_chars, {"loop_specs": [tally_invariants], "covers": ["counted"]}),
          "labels of entities": (post_chars, {"loop_specs": [tally_invariants], "covers": ["counted"]}),
          "labels of two profiles": (merge_labels, {"covers": ["merged"]}),
          "shares": (shares, {"loop_specs": [share_invariants], "covers": ["shares"]}),
          "merge": (merge, {"loop_specs": [word_invariants], "covers": ["same case", "mixed case"], "weight": 3})}
ASSUMPTIONS = ["str.lower is idempotent and leaves texts unchanged for which islower holds; str.split/strip and collections.Counter by contract (which words a batch holds)"]
TRUSTED = ["collections.Counter: +, +=, update; itertools.chain"]
BOUNDED = ["which words and characters a batch holds (str.split, str.strip), lists of the most frequent entries, counting of words by label, post-processing of predictions, "
           "whole text profiles (empty lines, memory, examples), vocabulary of text columns: seeded runtime contracts"]

"""P08: the laws of diff."""
from __future__ import annotations

from .common import *
from dv import keymaps
from dv.core import Sym, lit, need
from dv.keylists import KList, key_lists, list_invariants
from dv.keymaps import B, I, K, KeyMap, SymKey, k_, key_dicts, map_invariants

SAME = "unchanged"


def mods():
    pu = env().mod("profilers.profiler_utils")
    if not hasattr(pu, "_dv_lists"):
        pu._dv_lists = True
        key_dicts(pu)
        key_lists(pu)
    return pu


def number(ctx, name):
    """a statistic: absent, undefined, or any number"""
    k = ctx.choose(["number", "none", "nan"], name)
    return {"number": lambda: real(name), "none": lambda: None, "nan": lambda: float("nan")}[k]()


def is_diff(ctx, what, r, a, b):
    """obligation: r is the difference of the statistics a and b"""
    if a is None and b is None or (not is_sym(a) and not is_sym(b) and a is not None and b is not None and isspecial(a) and isspecial(b)):
        ctx.prove(f"{what}: nothing to tell apart", isinstance(r, str) and r == SAME)
    elif a is None or b is None:
        ctx.prove(f"{what}: one side missing shows both", isinstance(r, list) and len(r) == 2 and r[0] is a and r[1] is b)
    elif not is_sym(a) and isspecial(a) or not is_sym(b) and isspecial(b):
        ctx.prove(f"{what}: undefined", not is_sym(r) and not isinstance(r, (str, list)) and r != r)
    elif isinstance(r, str):
        ctx.prove(f"{what}: unchanged only if equal", r == SAME)
        ctx.prove(f"{what}: unchanged only if equal", num_expr(a) == num_expr(b))
    else:
        if not isinstance(r, (SymNum, int, float)):
            ctx.prove(f"{what}: a number", False)
        ctx.prove_eq(f"{what}: the difference", r, N(num_expr(a) - num_expr(b)))
        ctx.prove(f"{what}: a difference only if not equal", num_expr(a) != num_expr(b))


def numbers(ctx):
    f = need(mods(), "find_diff_of_numbers")
    a, b = number(ctx, "first"), number(ctx, "second")
    r = f(a, b)
    ctx.alive()
    ctx.run.cover("returns")
    is_diff(ctx, "numbers", r, a, b)


def strings(ctx):
    f = need(mods(), "find_diff_of_strings_and_bools")
    k = ctx.choose(["keys", "none left", "none right", "both none", "bools"], "values")
    a, b = SymKey(ctx.fresh("first", K)), SymKey(ctx.fresh("second", K))
    if k == "none left":
        a = None
    if k == "none right":
        b = None
    if k == "both none":
        a = b = None
    if k == "bools":
        a, b = ctx.choose([True, False], "a"), ctx.choose([True, False], "b")
    r = f(a, b)
    ctx.alive()
    ctx.run.cover("returns")
    eq = a.e == b.e if isinstance(a, SymKey) and isinstance(b, SymKey) else a is b
    if isinstance(r, str):
        ctx.prove("strings: unchanged", r == SAME)
        ctx.prove("strings: unchanged only if equal", eq)
    else:
        ctx.prove("strings: both shown", isinstance(r, list) and len(r) == 2 and r[0] is a and r[1] is b)
        ctx.prove("strings: shown only if not equal", z3.Not(eq) if z3.is_expr(eq) else not eq)


def lists(ctx):
    f = need(mods(), "find_diff_of_lists_and_sets")
    ctx.run.loop_specs = [list_invariants]
    k = ctx.choose(["lists", "none left", "none right", "both none"], "values")
    kind = ctx.choose([list, set], "kind") if k == "lists" else list
    a, b = KList.any(ctx, "first", kind), KList.any(ctx, "second", kind)
    A, Bc = a.cnt, b.cnt
    ctx.run.cover("runs")
    x, y = (None if "left" in k or "both" in k else a), (None if "right" in k or "both" in k else b)
    try:
        r = f(x, y)
    except ValueError:
        ctx.alive()
        ctx.prove("lists: every removed element is there", False)
        return
    ctx.alive()
    ctx.prove("lists: operands unchanged", a.cnt.eq(A) and b.cnt.eq(Bc))
    if k != "lists":
        if x is None and y is None:
            ctx.prove("lists: both missing", isinstance(r, str) and r == SAME)
        else:
            ctx.prove("lists: one side missing shows both", isinstance(r, list) and len(r) == 2 and r[0] is x and r[1] is y)
        return
    ca, cb = z3.Select(A, k_), z3.Select(Bc, k_)
    if isinstance(r, str):
        ctx.run.cover("equal")
        ctx.prove("lists: unchanged", r == SAME)
        ctx.prove("lists: unchanged only if equal", z3.ForAll([k_], ca == cb))
        return
    ctx.run.cover("different")
    if not isinstance(r, list) or len(r) != 3 or not all(isinstance(v, KList) for v in r):
        ctx.stop(Unsupported("shape of the difference of lists"))
    m = z3.If(ca < cb, ca, cb)
    ctx.prove("lists: only in the first", z3.ForAll([k_], r[0].at() == ca - m))
    ctx.prove("lists: shared", z3.ForAll([k_], r[1].at() == m))
    ctx.prove("lists: only in the second", z3.ForAll([k_], r[2].at() == cb - m))


PROOFS = {"numbers": (numbers, {"covers": ["returns"]}), "strings": (strings, {"covers": ["returns"]}),
          "lists": (lists, {"covers": ["runs", "equal", "different"]})}
ASSUMPTIONS = []
TRUSTED = []


# ---------------------------------------------------------------- dates
class Delta(Sym):
    """a difference of dates: microseconds"""

    def __init__(self, e):
        self.e = e

    @property
    def days(self):
        return SymNum(self.e / DAY, "int")             # integer division rounds down, as timedelta does

    def __abs__(self):
        return Delta(z3.If(self.e < 0, -self.e, self.e))

    def __neg__(self):
        return Delta(-self.e)

    def total_seconds(self):
        return SymNum(z3.ToReal(self.e) / 1000000, "float")

    def _cmp(self, o, f):
        import datetime
        if isinstance(o, datetime.timedelta):
            o = Delta(z3.IntVal(o // datetime.timedelta(microseconds=1)))
        return SymBool(f(self.e, o.e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def text(self):
        SHOWN.append(self)
        return f"<delta {len(SHOWN) - 1}>"

    _dv_str = __str__ = text

    def __format__(self, spec):
        return self.text()


SHOWN = []
DAY = z3.IntVal(86400 * 10 ** 6)


class Date(Sym):
    def __init__(self, e, name):
        self.e, self.name = e, name

    def __eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, Date) else False

    def __ne__(self, o):
        return SymBool(self.e != o.e) if isinstance(o, Date) else True

    def __lt__(self, o):
        return SymBool(self.e < o.e)

    def __gt__(self, o):
        return SymBool(self.e > o.e)

    def __le__(self, o):
        return SymBool(self.e <= o.e)

    def __ge__(self, o):
        return SymBool(self.e >= o.e)

    def __sub__(self, o):
        return Delta(self.e - o.e)

    def strftime(self, f):
        return f"<{self.name} as {f}>"

    __hash__ = None


def dates(ctx):
    f = need(mods(), "find_diff_of_dates")
    del SHOWN[:]
    k = ctx.choose(["dates", "none left", "none right", "both none"], "values")
    a, b = Date(ctx.fresh("first", I), "first"), Date(ctx.fresh("second", I), "second")
    x, y = (None if "left" in k or "both" in k else a), (None if "right" in k or "both" in k else b)
    r = f(x, y)
    ctx.alive()
    ctx.run.cover("returns")
    if x is None and y is None:
        ctx.prove("dates: both missing", r == SAME)
    elif x is None or y is None:
        ctx.prove("dates: one side missing shows both", isinstance(r, list) and r == [v and v.strftime("%x %X") for v in (x, y)])
    elif r == SAME:
        ctx.prove("dates: unchanged only if equal", a.e == b.e)
    else:
        import re
        m = isinstance(r, str) and re.fullmatch(r"([+-])<delta (\d+)>", r)
        ctx.prove("dates: signed difference", bool(m))
        d = SHOWN[int(m.group(2))].e
        ctx.run.cover(m.group(1))
        ctx.prove("dates: later shows +", (a.e > b.e) if m.group(1) == "+" else (a.e < b.e))
        ctx.prove("dates: length of the difference", d == z3.If(a.e > b.e, a.e - b.e, b.e - a.e))


# ---------------------------------------------------------------- dictionaries of numbers
UNCH, NUM, LEFT, RIGHT = range(4)


class DiffMap(KeyMap):
    """results by key: unchanged, a number, [number, None] or [None, number]"""

    def __init__(self, has=None, val=None, default=None, name="map", native=None, tag=None):
        super().__init__(has, val, default, name, native)
        self.tag = tag if tag is not None else Ctx.cur.fresh(name + ".tag", z3.ArraySort(K, I))

    def copy(self):
        return type(self)(self.has, self.val, self.default_factory, self.name, self.native, self.tag)

    def __setitem__(self, k, v):
        e = self._key(k)
        if e is None:
            self.native[k] = v
            return
        t, x = self.code(v)
        self.has, self.tag = z3.Store(self.has, e, z3.BoolVal(True)), z3.Store(self.tag, e, z3.IntVal(t))
        if x is not None:
            self.val = z3.Store(self.val, e, x)

    @staticmethod
    def code(v):
        if isinstance(v, str) and v == SAME:
            return UNCH, None
        if isinstance(v, SymNum):
            return NUM, num_expr(v)
        if isinstance(v, list) and len(v) == 2 and v[1] is None and isinstance(v[0], SymNum):
            return LEFT, num_expr(v[0])
        if isinstance(v, list) and len(v) == 2 and v[0] is None and isinstance(v[1], SymNum):
            return RIGHT, num_expr(v[1])
        Ctx.cur.stop(Unsupported(f"entry of a difference: {type(v).__name__}"))

    def __eq__(self, o):
        if isinstance(o, (dict, KeyMap)) and not len(o):
            return not bool(self)
        Ctx.cur.stop(Unsupported("comparison of symbolic dictionaries"))

    def __bool__(self):
        if self.concrete():
            return bool(self.native)
        c = Ctx.cur
        w, s = c.fresh("some key", K), c.fresh("empty", B)
        c.assume(z3.Implies(z3.Not(s), z3.Select(self.has, w)))
        if c.branch(s, "dictionary empty"):
            c.assume(z3.ForAll([k_], z3.Not(z3.Select(self.has, k_))))
            return False
        return True

    __hash__ = None

    def _dv_content(self):
        return super()._dv_content() + (self.tag.get_id(),)

    def _dv_havoc(self, loop, path):
        super()._dv_havoc(loop, path)
        self.tag = Ctx.cur.fresh(path + ".tag", z3.ArraySort(K, I))


def diff_invariants(loop, vars, slots, i):
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(src, keymaps.Enum):
        return out
    done = z3.And(z3.Select(src.has, k_), z3.Select(src.ix, k_) < i.e)
    v = z3.Select(src.val, k_)
    scope = {k: m for k, m in loop.locs0.items() if isinstance(m, KeyMap) and k not in loop.slot_entry and not m.native}
    for n, r in slots.items():
        r0 = loop.slot_entry.get(n)
        if not isinstance(r, DiffMap) or not isinstance(r0, DiffMap):
            continue
        h, w, t = (z3.Select(x, k_) for x in (r.has, r.val, r.tag))
        h0, w0, t0 = (z3.Select(x, k_) for x in (r0.has, r0.val, r0.tag))
        conds = {"all": z3.BoolVal(True), "new": z3.Not(h0)}
        kinds = {"plain": (z3.IntVal(NUM), v), "right": (z3.IntVal(RIGHT), v), }
        for on, o in scope.items():
            oh, ov = z3.Select(o.has, k_), z3.Select(o.val, k_)
            conds[f"in {on}"], conds[f"not in {on}"] = oh, z3.Not(oh)
            kinds[f"against {on}"] = (z3.If(oh, z3.If(v == ov, z3.IntVal(UNCH), z3.IntVal(NUM)), z3.IntVal(LEFT)), z3.If(oh, v - ov, v))
        for cn, c in conds.items():
            out.append((f"{n}: domain grows, {cn}", z3.ForAll([k_], h == z3.Or(h0, z3.And(done, c)))))
            for kn, (kt, kv) in kinds.items():
                if cn.startswith("in ") and not kn.startswith("against") or cn.startswith("not in") and kn not in ("plain", "right") \
                        or cn == "new" and kn not in ("right", "plain") or cn == "all" and not kn.startswith("against") and kn != "plain":
                    continue
                out.append((f"{n}: entries {kn}, {cn}", z3.ForAll([k_], z3.If(z3.And(done, c), z3.And(t == kt, z3.Implies(kt != UNCH, w == kv)), z3.And(t == t0, w == w0)))))
    return out


def diff_mods():
    pu = mods()
    if not hasattr(pu, "_dv_diffs"):
        pu._dv_diffs = True
        d = pu.__dict__["__dv__"]
        d.mkdict = lambda x: DiffMap(name="dict") if not x else x
    return pu


def operands(ctx, pre=True):
    """two dictionaries of numbers; either may be missing"""
    out = []
    for nm in ("first", "second"):
        m = KeyMap(ctx.fresh(nm + ".has", z3.ArraySort(K, B)), ctx.fresh(nm + ".val", z3.ArraySort(K, I)), None, nm)
        e = z3.K(K, z3.BoolVal(False))
        # no keys means an empty dictionary
        ctx.assume(m.card() >= 0)
        ctx.assume(z3.ForAll([k_], z3.Implies(m.card() == 0, z3.Not(z3.Select(m.has, k_)))))
        out.append(m)
    return out


def entry(ctx, what, r, kt, kv, cond):
    h, w, t = (z3.Select(x, k_) for x in (r.has, r.val, r.tag))
    ctx.prove(f"{what}: keys", z3.ForAll([k_], h == cond))
    ctx.prove(f"{what}: entries", z3.ForAll([k_], z3.Implies(cond, z3.And(t == kt, z3.Implies(kt != UNCH, w == kv)))))


def dicts(ctx, apart):
    pu = diff_mods()
    f = need(pu, "find_diff_of_dicts_with_diff_keys" if apart else "find_diff_of_dicts")
    ctx.run.loop_specs = [diff_invariants]
    a, b = operands(ctx)
    A, AV, Bh, BV = a.has, a.val, b.has, b.val
    k = ctx.choose(["both", "none"], "operands")
    x, y = (None if k in ("no first", "none") else a), (None if k in ("no second", "none") else b)
    r = f(x, y)
    ctx.alive()
    ctx.run.cover("returns")
    ctx.prove("operands unchanged", a.has.eq(A) and a.val.eq(AV) and b.has.eq(Bh) and b.val.eq(BV))
    ah, av, bh, bv = (z3.Select(m, k_) for m in (A, AV, Bh, BV))
    if x is None:
        ah = z3.BoolVal(False)
    if y is None:
        bh = z3.BoolVal(False)
    if isinstance(r, str):
        ctx.prove("unchanged", r == SAME)
        ctx.prove("unchanged only if there is nothing", z3.ForAll([k_], z3.And(z3.Not(ah), z3.Not(bh))))
        return
    dt, dv = z3.If(av == bv, z3.IntVal(UNCH), z3.IntVal(NUM)), av - bv
    if not apart:
        if not isinstance(r, DiffMap):
            ctx.stop(Unsupported("shape of the difference of dictionaries"))
        entry(ctx, "by key", r, z3.If(ah, z3.If(bh, dt, z3.IntVal(LEFT)), z3.IntVal(RIGHT)), z3.If(ah, z3.If(bh, dv, av), bv), z3.Or(ah, bh))
        return
    if not isinstance(r, list) or len(r) != 3 or not all(isinstance(m, DiffMap) for m in r):
        ctx.stop(Unsupported("shape of the difference of dictionaries"))
    entry(ctx, "only in the first", r[0], z3.IntVal(NUM), av, z3.And(ah, z3.Not(bh)))
    entry(ctx, "shared", r[1], dt, dv, z3.And(ah, bh))
    entry(ctx, "only in the second", r[2], z3.IntVal(NUM), bv, z3.And(bh, z3.Not(ah)))


PROOFS["dates"] = (dates, {"covers": ["returns", "+", "-"]})
PROOFS["dictionaries"] = (lambda c: dicts(c, False), {"covers": ["returns"], "weight": 3})
PROOFS["dictionaries with different keys"] = (lambda c: dicts(c, True), {"covers": ["returns"], "weight": 3})


# ---------------------------------------------------------------- tests of significance
class Law:
    """a distribution with n degrees of freedom: its cdf is an unknown function of both"""

    def __init__(self, name, df):
        self.name, self.df = name, num_expr(lit(df) if not is_sym(df) else df)

    def cdf(self, x):
        f = z3.Function("cdf." + self.name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        return SymNum(f(to_real(self.df), to_real(num_expr(x))), "float", True)

    def sf(self, x):
        return 1 - self.cdf(x)


class _Dist:
    def __init__(self, name):
        self.name = name

    def __call__(self, df):
        return Law(self.name, df)

    def cdf(self, x, df):
        return Law(self.name, df).cdf(x)

    def sf(self, x, df):
        return Law(self.name, df).sf(x)


class Scipy:
    class stats:
        t, chi2 = _Dist("t"), _Dist("chi2")


def with_scipy(mod):
    mod.scipy = Scipy


def cdf(name, df, x):
    return Law(name, N(df)).cdf(N(x)).e


def ttest(ctx):
    m = env().mod("profilers.numerical_column_stats")
    with_scipy(m)
    f = need(need(m, "NumericStatsMixin"), "_perform_t_test")
    n1, n2 = integer("n1", lo=0), integer("n2", lo=0)

    def stat(nm, lo=None):
        if ctx.choose([True, False], nm + " defined"):
            v = real(nm, npy=True)
            if lo is not None:
                ctx.assume(v.e >= lo)
            return v
        return np.float64("nan")
    m1, m2 = real("mean1"), real("mean2")
    v1, v2 = stat("variance1", 0), stat("variance2", 0)
    und = not is_sym(v1) or not is_sym(v2)
    r, q = f(m1, v1, n1, m2, v2, n2), f(m2, v2, n2, m1, v1, n1)
    ctx.alive()
    ctx.run.cover("returns")
    a, b = to_real(n1.e), to_real(n2.e)
    if r["t-statistic"] is None:
        ctx.prove("t-test: nothing is reported", all(r[k][j] is None for k in ("conservative", "welch") for j in ("deg_of_free", "p-value")))
        ctx.prove("t-test: not reported only without enough data", True if und else z3.Or(n1.e <= 1, n2.e <= 1, z3.And(v1.e == 0, v2.e == 0)))
        ctx.prove("t-test: in both directions", q["t-statistic"] is None)
        return
    ctx.run.cover("a test")
    ctx.prove("t-test: only of enough data", False if und else z3.And(n1.e > 1, n2.e > 1, z3.Or(v1.e > 0, v2.e > 0)))
    if und:
        return
    s1, s2 = N(v1.e / a), N(v2.e / b)
    t = (m1 - m2) / sqrt(s1 + s2)
    ctx.prove_eq("t-test: statistic", r["t-statistic"], t)
    w = (s1 + s2) * (s1 + s2) / (s1 * s1 / N(a - 1) + s2 * s2 / N(b - 1))
    c = N(z3.If(a < b, a, b) - 1)
    ctx.prove_eq("t-test: conservative degrees of freedom", r["conservative"]["deg_of_free"], c)
    ctx.prove_eq("t-test: Welch degrees of freedom", r["welch"]["deg_of_free"], w)
    T = abs(r["t-statistic"])
    for k in ("conservative", "welch"):
        ctx.prove(f"t-test: {k} p-value", num_expr(r[k]["p-value"]) == 2 * (1 - cdf("t", to_real(num_expr(r[k]["deg_of_free"])), to_real(T.e))))
    ctx.prove_eq("t-test: opposite in the other direction", q["t-statistic"], -r["t-statistic"])
    for k in ("conservative", "welch"):
        ctx.prove_eq(f"t-test: {k} degrees of freedom do not depend on the direction", q[k]["deg_of_free"], r[k]["deg_of_free"])


def chi2(ctx):
    pu = mods()
    with_scipy(pu)
    f = need(pu, "perform_chi_squared_test_for_homogeneity")
    from . import p06
    p06.REAL["add"] = pu.__dict__.get("_dv_add") or pu.add_nested_dictionaries
    pu._dv_add = p06.REAL["add"]
    def add(x, y):
        m = p06.add_contract(x, y)
        if isinstance(m, KeyMap):
            m.facts = True
        return m
    pu.add_nested_dictionaries = add
    n1, n2 = integer("n1", lo=0), integer("n2", lo=0)
    a, b = operands(ctx)
    ah, av, bh, bv = (z3.Select(m, k_) for m in (a.has, a.val, b.has, b.val))
    ctx.assume(z3.ForAll([k_], z3.And(z3.Implies(ah, av >= 0), z3.Implies(bh, bv >= 0))))
    S = {}

    def at(m, k):
        return to_real(z3.Select(m.val, k)) if ctx.branch(z3.Select(m.has, k), "key present") else z3.RealVal(0)

    def term(k):
        x, y = at(a, k), at(b, k)
        c, N1, N2 = to_real(z3.Select(S["src"].val, k)), to_real(n1.e), to_real(n2.e)
        e1, e2 = N1 * c / (N1 + N2), N2 * c / (N1 + N2)
        return (x - e1) * (x - e1) / e1 + (y - e2) * (y - e2) / e2

    def spec(loop, vars, slots, i):
        src = getattr(loop.seq, "src", None) if loop.seq is not None else None
        if i is None or not isinstance(src, keymaps.Enum):
            return []
        S["src"] = src
        return [(f"{n} is the sum over the categories seen", to_real(num_expr(v)) == src.prefix_of("chi2", term, i.e))
                for n, v in vars.items() if isinstance(v, (SymNum, int, float))]
    ctx.run.loop_specs = [spec]
    r = f(a, n1, b, n2)
    ctx.alive()
    ctx.run.cover("returns")
    if r["deg_of_free"] is None:
        ctx.prove("chi2: nothing is reported", r["chi2-statistic"] is None and r["p-value"] is None)
        return
    x = r["chi2-statistic"]
    if not is_sym(x):
        if isinstance(x, float) and x == float("inf"):
            ctx.run.cover("no expectation")
            ctx.prove("chi2: impossible data have p-value 0", not is_sym(r["p-value"]) and r["p-value"] == 0)
            return
        ctx.stop(Unsupported("chi2 statistic"))
    ctx.run.cover("a test")
    src = S["src"]
    ctx.prove("chi2: the sum over all categories of either", to_real(x.e) == src.prefix_of("chi2", term, src.n))
    ctx.prove("chi2: degrees of freedom", num_expr(r["deg_of_free"]) == src.n - 1)
    ctx.prove("chi2: at least two categories", src.n >= 2)
    ctx.prove("chi2: categories of either", z3.ForAll([k_], z3.Select(src.has, k_) == z3.Or(ah, bh)))
    ctx.prove("chi2: expectations from the counts of both", z3.ForAll([k_], z3.Implies(z3.Select(src.has, k_), z3.Select(src.val, k_) ==
              z3.If(ah, av, z3.IntVal(0)) + z3.If(bh, bv, z3.IntVal(0)))))
    ctx.prove("chi2: p-value", num_expr(r["p-value"]) == 1 - cdf("chi2", to_real(num_expr(r["deg_of_free"])), to_real(x.e)))


PROOFS["t-test"] = (ttest, {"covers": ["returns", "a test"]})
PROOFS["chi2"] = (chi2, {"covers": ["returns", "a test", "no expectation"]})
ASSUMPTIONS += ["cumulative distribution functions of scipy.stats (t, chi2): unknown functions of degrees of freedom and argument"]


# ---------------------------------------------------------------- population stability
def psi(ctx, same):
    from dv.arrays import fresh_array
    from .columns import make_column
    m = env().mod("profilers.numerical_column_stats")
    kind = ctx.choose(["float", "int"], "column")
    col = make_column(kind, off=())
    made = {}

    def np_array_equal(a, b, *_, **__):
        if a is b:
            return True
        s = ctx.fresh("edges equal", B)
        if ctx.branch(s, "edges equal"):
            ctx.assume(a.n == b.n)
            made["equal"] = True
            return True
        return False
    m.np.__dict__["array_equal"] = np_array_equal

    def hist(nm):
        n = ctx.fresh(nm + ".bins", I)
        ctx.assume(n >= 1)
        return {"bin_counts": fresh_array(nm + ".counts", n, "float", nonneg=True, integral=True, with_sum=True),
                "bin_edges": fresh_array(nm + ".edges", n + 1, "float", asc=True)}

    def regenerate(entity_count_per_bin, bin_edges, suggested_bin_count, is_float_histogram=None, options=None, **k):
        """contract (P03): the same input and the same options give the same histogram, with non-negative counts"""
        o = options or {}
        lo, hi = o.get("min_edge"), o.get("max_edge")
        key = (id(entity_count_per_bin), id(bin_edges), str(suggested_bin_count), str(lo and lo.e), str(hi and hi.e), str(is_float_histogram))
        if key not in made:
            n = num_expr(suggested_bin_count)
            made[key] = {"bin_counts": fresh_array(f"regenerated{len(made)}", n, "float", nonneg=True, integral=True, with_sum=True),
                         "bin_edges": bins((str(suggested_bin_count), str(lo and lo.e), str(hi and hi.e)), n)}
        return made[key], 0.0

    def bins(k, n):
        if ("bins", k) not in made:
            made[("bins", k)] = fresh_array("common edges", n + 1, "float", asc=True)
        return made[("bins", k)]
    col._regenerate_histogram = regenerate
    a = hist("self")
    b = a if same else hist("other")
    n1 = integer("n1", npy=True, lo=1)
    n2 = n1 if same else integer("n2", npy=True, lo=1)
    S = {}

    def spec(loop, vars, slots, i):
        out = []
        if i is None:
            return out
        for n, v in vars.items():
            if isinstance(v, (SymNum, int, float)) and not isspecial(v):
                e = to_real(num_expr(v))
                out.append((f"{n} is zero", e == 0))
                out.append((f"{n} is not negative", e >= 0))
        return out
    ctx.run.loop_specs = [spec]
    r = need(col, "_calculate_psi")(n1, a, n2, b)
    ctx.alive()
    ctx.run.cover("returns")
    if r is None:
        ctx.prove("psi: reported for histograms", False)
    if not is_sym(r):
        ctx.prove("psi: a number", r == 0)
        return
    if same:
        ctx.prove_eq("psi: data do not differ from themselves", r, 0)
    ctx.prove("psi: not negative", r.e >= 0)


PROOFS["psi of the same data"] = (lambda c: psi(c, True), {"covers": ["returns"]})
PROOFS["psi"] = (lambda c: psi(c, False), {"covers": ["returns"]})


# ---------------------------------------------------------------- every reported difference is that of the statistic it names
def probe(cls, vals, base=None, **attrs):
    """an instance of cls (really: of a subclass) whose observables have the given values"""
    body = {}
    inst = {}
    for n, v in {**attrs, **vals}.items():
        have = getattr(cls, n, None)
        if isinstance(have, property):
            body[n] = property(lambda self, n=n: self.__dict__["ghost_" + n])
            inst["ghost_" + n] = v
        else:
            inst[n] = v
    sub = type(cls.__name__, (cls,), body)
    o = base() if base else object.__new__(sub)
    if base:
        o.__class__ = sub
    o.__dict__.update(inst)
    return o


def pair(ctx, cls, names, base=None, const=1.0, more=None):
    """two probes that agree on everything but, perhaps, one statistic"""
    k = ctx.choose(list(names), "statistic")
    a, b = number(ctx, "first"), number(ctx, "second")
    x = probe(cls, {**{n: const for n in names}, k: a}, base, **(more or {}))
    y = probe(cls, {**{n: const for n in names}, k: b}, base, **(more or {}))
    y.__class__ = x.__class__
    return k, a, b, x, y


def others_same(ctx, d, names, k):
    for n, key in names.items():
        if n != k:
            ctx.prove(f"{key}: unchanged when equal", isinstance(d[key], str) and d[key] == SAME)


NUMERIC = {"min": "min", "max": "max", "sum": "sum", "mean": "mean", "median": "median", "variance": "variance", "stddev": "stddev",
           "median_abs_deviation": "median_absolute_deviation"}


class Token:
    def __init__(self, k):
        self.k = dict(k)


def bound(real, name):
    """the call, by parameter names"""
    import inspect
    sig = inspect.signature(real)

    def f(*a, **k):
        b = sig.bind(*a, **k)
        return Token(b.arguments)
    return f


def numeric(ctx, kind):
    from .columns import column_class, make_column
    cls = column_class(kind)
    mix = env().mod("profilers.numerical_column_stats").NumericStatsMixin
    hs = [{"bin_counts": f"counts{j}", "bin_edges": f"edges{j}"} for j in (1, 2)]
    k, a, b, x, y = pair(ctx, cls, NUMERIC, lambda: make_column(kind, off=()), more={"mode": [1.0], "vocab": ["a"],
                         "profile": {"precision": {n: 1.0 for n in ("min", "max", "confidence_level")}}})
    tt, ps = bound(need(mix, "_perform_t_test"), "t"), bound(getattr(mix, "_calculate_psi"), "psi")
    x._perform_t_test = y._perform_t_test = tt
    x._calculate_psi = lambda *p, **q: ps(x, *p, **q)
    x.match_count, y.match_count = 5, 7
    x._stored_histogram, y._stored_histogram = {"histogram": hs[0]}, {"histogram": hs[1]}
    d = x.diff(y)
    ctx.alive()
    ctx.run.cover("returns")
    is_diff(ctx, f"{kind} {NUMERIC[k]}", d[NUMERIC[k]], a, b)
    others_same(ctx, d, NUMERIC, k)
    ctx.prove(f"{kind} mode: unchanged when equal", d["mode"] == SAME)
    t = d["t-test"]
    if not isinstance(t, Token):
        ctx.stop(Unsupported("t-test not by its contract"))
    want = dict(mean1=x.mean, var1=x.variance, n1=5, mean2=y.mean, var2=y.variance, n2=7)
    ctx.prove(f"{kind}: t-test of these statistics", all(v is t.k[n] or (not is_sym(v) and v == t.k[n]) for n, v in want.items()))
    if kind == "text":
        ctx.prove("text: no psi", "psi" not in d)
        ctx.prove("text vocab: unchanged when equal", d["vocab"] == SAME)
    else:
        p = d["psi"]
        if not isinstance(p, Token):
            ctx.stop(Unsupported("psi not by its contract"))
        ctx.prove(f"{kind}: psi of these histograms", p.k["self_match_count"] == 5 and p.k["other_match_count"] == 7
                  and p.k["self_histogram"] is hs[0] and p.k["other_histogram"] is hs[1])


def precision(ctx):
    from .columns import column_class, make_column
    cls = column_class("float")
    ks = ["min", "max", "mean", "var", "std", "sample_size", "margin_of_error"]
    k = ctx.choose(ks, "statistic")
    a, b = number(ctx, "first"), number(ctx, "second")
    mix = env().mod("profilers.numerical_column_stats").NumericStatsMixin
    real_diff = mix.diff
    x, y = (probe(cls, {"profile": {"precision": {**{n: 1.0 for n in ks + ["confidence_level"]}, k: v}}}, lambda: make_column("float", off=())) for v in (a, b))
    y.__class__ = x.__class__
    mix.diff = lambda self, other, options=None: {}
    try:
        d = x.diff(y)
    finally:
        mix.diff = real_diff
    ctx.alive()
    ctx.run.cover("returns")
    is_diff(ctx, f"precision {k}", d["precision"][k], a, b)
    others_same(ctx, d["precision"], {n: n for n in ks}, k)
    ctx.prove("precision: nothing else", set(d["precision"]) == set(ks))


CATS = {"unique_count": "unique_count", "unique_ratio": "unique_ratio", "gini_impurity": "gini_impurity", "unalikeability": "unalikeability"}


def categorical(ctx):
    m = env().mod("profilers.categorical_column_profile")
    pu = m.profiler_utils
    cls = need(m, "CategoricalColumn")
    ma, mb = ctx.choose([True, False], "first is categorical"), ctx.choose([True, False], "second is categorical")
    k, a, b, x, y = pair(ctx, cls, CATS, lambda: cls("c"), more={"categories": ["p", "q"]})
    if ma != mb or not ma:
        if k in ("gini_impurity", "unalikeability"):
            ctx.stop(PathKill("not reported"))
    x.__dict__["ghost_is_match"], y.__dict__["ghost_is_match"] = ma, mb
    x.__class__.is_match = property(lambda self: self.__dict__["ghost_is_match"])
    x.sample_size, y.sample_size = 4, 8
    x._categories, y._categories = {"p": 1, "q": 3}, {"p": 2, "q": 6}
    old = pu.perform_chi_squared_test_for_homogeneity
    pu.perform_chi_squared_test_for_homogeneity = bound(old, "chi2")
    try:
        d = x.diff(y)
    finally:
        pu.perform_chi_squared_test_for_homogeneity = old
    ctx.alive()
    ctx.run.cover("returns")
    s = d["statistics"]
    ctx.prove("categorical: decision", d["categorical"] == (SAME if ma == mb else [ma, mb]))
    is_diff(ctx, f"categorical {k}", s[CATS[k]], a, b)
    if ma and mb:
        others_same(ctx, s, CATS, k)
        t = s["chi2-test"]
        if not isinstance(t, Token):
            ctx.stop(Unsupported("chi2 not by its contract"))
        ctx.prove("categorical: test of these counts", t.k == dict(categories1=x._categories, sample_size1=4, categories2=y._categories, sample_size2=8))
        ctx.prove("categorical: same shares, no instability", s["psi"] == 0)
        ctx.prove("categorical: counts", s["categorical_count"] == {"p": -1, "q": -3})
    else:
        ctx.prove("categorical: only distinct values otherwise", set(s) == {"unique_count", "unique_ratio"})


COLS = {"sample_size": "sample_size", "null_count": "null_count", "null_ratio": "null_ratio"}


def column(ctx):
    m = env().mod("profilers.profile_builder")
    cls = need(m, "StructuredColProfiler")

    class Comp:
        def diff(self, other, options=None):
            return {"statistics": {"inner": self.x}, "data_type": SAME, "data_type_representation": {"int": SAME}}
    cx, cy = Comp(), Comp()
    cx.x, cy.x = "self", "other"
    k, a, b, x, y = pair(ctx, cls, COLS, more={"name": "c", "null_types": ["nan"], "null_types_index": {"nan": {1}}})
    x.profiles, y.profiles = {"data_type_profile": cx}, {"data_type_profile": cy}
    d = x.diff(y)
    ctx.alive()
    ctx.run.cover("returns")
    s = d["statistics"]
    is_diff(ctx, f"column {k}", s[COLS[k]], a, b)
    others_same(ctx, s, COLS, k)
    ctx.prove("column: differences of its parts", s["inner"] == "self" and s["data_type_representation"] == {"int": SAME} and d["data_type"] == SAME and d["column_name"] == "c")
    ctx.prove("column: null types", s["null_types"] == SAME and s["null_types_index"] == [{}, {"nan": SAME}, {}])


GLOB = {"_max_col_samples_used": "samples_used", "total_samples": "row_count", "_get_row_has_null_ratio": "row_has_null_ratio",
        "_get_row_is_null_ratio": "row_is_null_ratio", "_get_unique_row_ratio": "unique_row_ratio", "_get_duplicate_row_count": "duplicate_row_count"}


def profile(ctx, text):
    m = env().mod("profilers.profile_builder")
    m._prepare_report = lambda r, *a, **k: r
    cls = need(m, "UnstructuredProfiler" if text else "StructuredProfiler")
    names = {"total_samples": "samples_used", "_empty_line_count": "empty_line_count", "memory_size": "memory_size"} if text else GLOB
    k = ctx.choose(list(names), "statistic")
    a, b = number(ctx, "first"), number(ctx, "second")

    class Col:
        def __init__(self, nm, who):
            self.name, self.who = nm, who

        def diff(self, o, options=None):
            return (self.name, self.who, o.name, o.who)
    sa = ctx.choose([("p", "q"), ("p", "p")], "columns of the first") if not text else ()
    sb = ctx.choose([("p", "q"), ("p", "p"), ("q", "p"), ("p",)], "columns of the second") if not text else ()
    if not text and k != "total_samples" and (sa, sb) != (("p", "q"), ("p", "q")):
        ctx.stop(PathKill("one statistic with the other schemas"))

    def mk(v, who, cols):
        at = {n: (v if n == k else 1.0) for n in names}
        o = probe(cls, {n: ((lambda w=w: w) if n.startswith("_get") else w) for n, w in at.items()}, file_type="csv", encoding=who, chi2_matrix=None, correlation_matrix=None,
                  _profile=Col("text", who) if text else [Col(c, f"{who}{j}") for j, c in enumerate(cols)])
        return o
    x, y = mk(a, "A", sa), mk(b, "B", sb)
    y.__class__ = x.__class__
    d = x.diff(y)
    ctx.alive()
    ctx.run.cover("returns")
    g = d["global_stats"]
    is_diff(ctx, f"profile {names[k]}", g[names[k]], a, b)
    others_same(ctx, g, names, k)
    ctx.prove("profile: file type and encoding", g["file_type"] == SAME and g["encoding"] == ["A", "B"])
    if text:
        ctx.prove("profile: differences of the text", d["data_stats"] == ("text", "A", "text", "B"))
        return
    ctx.prove("profile: column count", g["column_count"] == (SAME if len(sa) == len(sb) else len(sa) - len(sb)))
    if sa == sb:
        ctx.run.cover("same schema")
        ctx.prove("profile: every column against its counterpart", d["data_stats"] == [(c, f"A{j}", c, f"B{j}") for j, c in enumerate(sa)])
    else:
        ctx.prove("profile: other schemas are not compared by column", d["data_stats"] == [])


from dv.core import PathKill
for _k in ("int", "float", "text"):
    PROOFS[f"{_k} columns"] = (lambda c, k=_k: numeric(c, k), {"covers": ["returns"]})
PROOFS.update({"precision": (precision, {"covers": ["returns"]}), "categorical columns": (categorical, {"covers": ["returns"]}), "columns": (column, {"covers": ["returns"]}),
               "profiles": (lambda c: profile(c, False), {"covers": ["returns", "same schema"]}), "text profiles": (lambda c: profile(c, True), {"covers": ["returns"]})})

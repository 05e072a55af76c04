"""P11: columns are matched by name.

Ghost of a schema: names(k), for every name the positions of its columns E(k, 0..L(k)-1); every column c < n has one name and one
place under it (key(c), place(c)), the inverse of E."""
from __future__ import annotations

import types

from .common import *
from dv import heap
from dv.arrays import SymArray
from dv.core import Sym, need
from dv.keymaps import B, I, K, Enum, KeyMap, SymKey, View, k_
from dv.maps import SymDict
from . import p07, p09

c_ = z3.Int("c!")
j_ = z3.Int("j!")


class Name(SymKey):
    """a column name, already in the lower case the schemas keep"""

    def lower(self):
        return self

    casefold = lower


class Number(SymKey):
    rep_type = int


class Schema(KeyMap):
    """names to lists of column positions"""

    def __init__(self, ctx, name, key):
        KeyMap.__init__(self, ctx.fresh(name + ".names", z3.ArraySort(K, B)), None, list, name)
        self.key_type = key
        self.L = z3.Function(name + ".len", K, I)
        self.E = z3.Function(name + ".at", K, I, I)
        self.of, self.place = z3.Function(name + ".key", I, K), z3.Function(name + ".place", I, I)
        self.n = ctx.fresh(name + ".columns", I)
        h = z3.Select(self.has, k_)
        ctx.assume(self.n >= 1)
        ctx.assume(self.card() >= 1)
        ctx.assume(z3.ForAll([k_], z3.Implies(h, self.L(k_) >= 1), patterns=[self.L(k_)]))
        e = self.E(k_, j_)
        ctx.assume(z3.ForAll([k_, j_], z3.Implies(z3.And(h, 0 <= j_, j_ < self.L(k_)),
                                                  z3.And(0 <= e, e < self.n, self.of(e) == k_, self.place(e) == j_)), patterns=[e]))
        kc, pc = self.of(c_), self.place(c_)
        ctx.assume(z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < self.n), z3.And(z3.Select(self.has, kc), 0 <= pc, pc < self.L(kc), self.E(kc, pc) == c_)),
                             patterns=[kc, pc]))

    def copy(self):
        return self

    def lst(self, k):
        return SymArray(self.L(k), lambda j: self.E(k, j), "int", flavour="list", name="columns", npy=False)

    def __getitem__(self, k):
        e = self._key(k)
        if Ctx.cur.branch(z3.Select(self.has, e), "name present"):
            return self.lst(e)
        Ctx.cur.stop(Unsupported("a name is added to a schema"))

    def get(self, k, d=None):
        e = self._key(k)
        return self.lst(e) if Ctx.cur.branch(z3.Select(self.has, e), "name present") else d

    def __setitem__(self, k, v):
        Ctx.cur.stop(Unsupported("a schema is changed"))

    def _dv_iter(self):
        return self._seq(lambda e, k: self.key_type(k))

    def items(self):
        return View(self, lambda e, k: (self.key_type(k), self.lst(k)))

    def values(self):
        return View(self, lambda e, k: self.lst(k))


class Mapping(SymDict):
    """a dictionary from columns to columns"""

    def __init__(self, *a, **k):
        if a or k:
            Ctx.cur.stop(Unsupported("initialised dictionary"))
        self.has = z3.K(I, z3.BoolVal(False))
        self.val = Ctx.cur.fresh("mapping", z3.ArraySort(I, I))

    def _absent(self, e):
        pass

    def _dv_freeze(self):
        d = Mapping.__new__(Mapping)
        d.has, d.val = self.has, self.val
        return d


def invariants(s1, s2):
    def at(m, c):
        return z3.Select(m.has, c), z3.Select(m.val, c)

    def spec(loop, vars, slots, i):
        out = []
        if i is None:
            return out
        src = getattr(loop.seq, "src", None)
        col = z3.And(0 <= c_, c_ < s1.n)
        k, p = s1.of(c_), s1.place(c_)
        for n, m in slots.items():
            m0 = loop.slot_entry.get(n)
            if not isinstance(m, Mapping) or not isinstance(m0, Mapping):
                continue
            h, v = at(m, c_)
            h0, v0 = at(m0, c_)

            def fa(nm, body):
                out.append((f"{n}: {nm}", z3.ForAll([c_], body, patterns=[h, v, k])))
            if isinstance(src, Enum):
                done = z3.And(col, z3.Select(src.has, k), z3.Select(src.ix, k) < i.e)
                fa("columns of the names seen", h == done)
                fa("are mapped to the column of that name and place", z3.Implies(done, v == s2.E(k, p)))
                fa("names seen are in both", z3.Implies(done, z3.And(z3.Select(s2.has, k), s1.L(k) == s2.L(k))))
                fa("duplicates stay in place", z3.Implies(z3.And(done, s1.L(k) > 1), s2.E(k, p) == c_))
            else:
                for kn, key in loop.locs0.items():
                    if not isinstance(key, SymKey):
                        continue
                    new = z3.And(col, k == key.e, p < i.e)
                    fa(f"columns of {kn} so far", h == z3.Or(h0, new))
                    fa(f"columns of {kn} are mapped", z3.Implies(new, v == s2.E(k, p)))
                    fa(f"other columns than {kn}'s as before", z3.Implies(z3.Not(new), v == v0))
                    fa(f"duplicates of {kn} in place", z3.Implies(z3.And(new, s1.L(k) > 1), s2.E(k, p) == c_))
        for kn, key in loop.locs0.items():
            if isinstance(key, SymKey) and not isinstance(src, Enum):
                out.append((f"places of {kn} so far equal", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < i.e, s1.L(key.e) > 1),
                            s1.E(key.e, j_) == s2.E(key.e, j_)), patterns=[s1.E(key.e, j_)])))
        return out
    return spec


def mapper():
    pb = p07.mod()
    return pb, need(pb.StructuredProfiler, "_get_and_validate_schema_mapping")


def mapping(ctx):
    """StructuredProfiler._get_and_validate_schema_mapping, any number of names and of columns under each"""
    pb, f = mapper()
    d = types.SimpleNamespace(**vars(pb.__dict__["__dv__"]))
    d.dict = lambda *a, **k: Mapping(*a, **k)
    d.mkdict = lambda x: Mapping() if not x else x
    pb.__dict__["__dv__"] = d
    ctx.by_patterns = True
    key = ctx.choose([Name, Number], "names are")
    s1, s2 = Schema(ctx, "first", key), Schema(ctx, "second", key)
    ctx.run.loop_specs = [invariants(s1, s2)]
    strict = ctx.choose([False, True], "strict")
    k, k2 = k_, k_
    same = z3.And(s1.card() == s2.card(), z3.ForAll([k_], z3.Implies(z3.Select(s1.has, k_), z3.And(z3.Select(s2.has, k_), s1.L(k_) == s2.L(k_),
                  z3.Implies(s1.L(k_) > 1, z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < s1.L(k_)), s1.E(k_, j_) == s2.E(k_, j_)))))),
                  patterns=[z3.Select(s1.has, k_)]))
    try:
        m = f(s1, s2, strict)
    except ValueError:
        ctx.alive()
        ctx.run.cover("refused")
        ctx.prove("only schemas that differ are refused", z3.Not(same))
        return
    ctx.alive()
    ctx.run.cover("mapped")
    if not isinstance(m, Mapping):
        ctx.stop(Unsupported(f"mapping is a {type(m).__name__}"))
    h, v = z3.Select(m.has, c_), z3.Select(m.val, c_)
    kc, pc = s1.of(c_), s1.place(c_)
    col = z3.And(0 <= c_, c_ < s1.n)
    ctx.prove("as many names", s1.card() == s2.card())
    ctx.prove("every column is mapped, nothing else", z3.ForAll([c_], h == col))
    ctx.prove("to the column of the same name, at the same place under it", z3.ForAll([c_], z3.Implies(col, v == s2.E(kc, pc))))
    ctx.prove("whose name is the same", z3.ForAll([c_], z3.Implies(col, z3.And(z3.Select(s2.has, kc), s2.of(v) == kc, s2.place(v) == pc))))
    ctx.prove("columns with duplicate names keep their position", z3.ForAll([c_], z3.Implies(z3.And(col, s1.L(kc) > 1), v == c_)))


SHAPES = [{}, {"a": [0]}, {"b": [1], "a": [0]}, {"x": [0, 2], "y": [1]}, {0: [0], "a": [1], 2: [2]}]


def first(ctx):
    """no names on one side: identity for the first batch, refused by a merge (the listed shapes)"""
    pb, f = mapper()
    s1, s2 = ctx.choose(SHAPES, "first"), ctx.choose(SHAPES, "second")
    strict = ctx.choose([False, True], "strict")
    if s1 and s2:
        return
    ctx.run.cover("empty")
    try:
        m = f(dict(s1), dict(s2), strict)
    except ValueError:
        ctx.prove("only a merge is refused", strict)
        return
    ctx.prove("a merge with an empty profile is refused", not strict)
    ctx.prove("the first batch keeps its order", bool(s2) or dict(m) == {c: c for v in s1.values() for c in v})


def column_order(ctx):
    """StructuredProfiler._get_column_order and the columns merged, for every arrangement of up to three columns"""
    import itertools
    pb = p07.mod()
    names = ctx.choose([("x",), ("x", "y"), ("x", "y", "z"), ("x", "x", "y"), (0, "x", 1)], "names")
    perm = ctx.choose(list(itertools.permutations(range(len(names)))), "order")
    o = env().profiler_options.StructuredOptions()
    o.data_labeler.is_enabled = o.correlation.is_enabled = o.chi2_homogeneity.is_enabled = o.null_replication_metrics.is_enabled = False
    a = p09.profile(ctx, pb, "first", o, names, len(names))
    b = p09.profile(ctx, pb, "second", o, [names[i] for i in perm], len(names))
    dup = {n: [i for i, m in enumerate(names) if m == n] for n in names}
    ok = all(len(v) == 1 or v == [i for i, m in enumerate(perm) if names[m] == n] for n, v in dup.items())
    try:
        r = a + b
    except ValueError:
        ctx.alive()
        ctx.prove("only columns that differ are refused", not ok)
        return
    ctx.alive()
    ctx.run.cover("merged")
    ctx.prove("duplicates in other places are refused", ok)
    ctx.prove("as many columns", len(r._profile) == len(names))
    ctx.prove("names as in the first profile", {k: list(v) for k, v in r._col_name_to_idx.items()} == dup)
    for i, n in enumerate(names):
        q = r._profile[i].of()
        ctx.prove("each column is the merge of the two columns of its name", len(q) == 2 and q[0] is a._profile[i] and q[1].name == n and
                  (len(dup[n]) == 1 or q[1] is b._profile[i]))


PROOFS = {"schema mapping": (mapping, {"covers": ["mapped", "refused"], "weight": 3}),
          "no columns on one side": (first, {"covers": ["empty"]}),
          "merged columns": (column_order, {"covers": ["merged"]})}
ASSUMPTIONS = ["schemas keep names in lower case (they are built that way by _update_profile_from_chunk)",
               "equally many names, all of the first also in the second: the names are the same (counting)"]
TRUSTED = []
BOUNDED = ["'no columns on one side' and 'merged columns': the listed shapes (up to three columns); how a batch is brought into the order of the profile (pandas): "
           "seeded runtime contracts"]

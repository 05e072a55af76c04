"""P04: sampling takes each row exactly once."""
from __future__ import annotations

from .common import *
from dv import maps
from dv.arrays import SymArray
from dv.core import Sym, need
from dv.maps import SymDict, Seq

I = z3.IntSort()


def fa(p, body, pat):
    ok = z3.is_select(pat) and pat.arg(1).eq(p)
    return z3.ForAll([p], body, patterns=[pat]) if ok else z3.ForAll([p], body)


def perm(d, w, tag):
    """the total view of d maps [0, w) injectively into [0, w)"""
    p, q = z3.Ints("p! q!")
    t = d.total
    rng = z3.And(0 <= p, p < w)
    return [(f"{tag} into range", z3.ForAll([p], z3.Implies(rng, z3.And(0 <= t(p), t(p) < w)), patterns=[z3.Select(d.val, p)])),
            (f"{tag} injective", z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < w), t(p) != t(q)),
                                           patterns=[z3.MultiPattern(z3.Select(d.val, p), z3.Select(d.val, q))]))]


def shuffle_invariants(loop, vars, slots, i):
    """loop annotations by type: every dictionary is a permutation of [0, n) for the integers n in scope; entries below
    an integer loop variable's entry value are unchanged; a list being filled mirrors the dictionary; what was produced
    so far mirrors the dictionary"""
    out = []
    allv = {**loop.locs0, **vars, **slots}
    dicts = {k: v for k, v in allv.items() if isinstance(v, SymDict)}
    ints = {k: v.e for k, v in loop.locs0.items()
            if isinstance(v, SymNum) and k not in loop.entry and v.e.sort() == I and z3.is_const(v.e)}
    lv = {k: (num_expr(v), num_expr(loop.entry[k])) for k, v in vars.items()
          if isinstance(v, (SymNum, int)) and isinstance(loop.entry.get(k), (SymNum, int)) and num_expr(v).sort() == I
          and num_expr(loop.entry[k]).sort() == I}
    seqs = {k: v for k, v in slots.items() if isinstance(v, Seq)}
    p = z3.Int("p!")
    for dn, d in dicts.items():
        for w, e in ints.items():
            out += perm(d, e, f"{dn} on [0,{w})")
        d0 = loop.slot_entry.get(dn)
        for n, (v, v0) in lv.items():
            if d0 is not None:
                out.append((f"{dn} unchanged below entry {n}", z3.ForAll(
                    [p], z3.Implies(z3.And(0 <= p, p < v0), d.total(p) == d0.total(p)), patterns=[z3.Select(d.val, p)])))
            for an, a in {**loop.locs0, **slots}.items():
                if isinstance(a, SymArray) and a.flavour == "list" and i is not None:
                    out.append((f"{an} mirrors {dn} from entry {n}", fa(
                        p, z3.Implies(z3.And(0 <= p, p < v - v0), a._at(p) == d.total(p + v0)), a._at(p))))
        for sn, s in seqs.items():
            out.append((f"{sn} mirrors {dn}", z3.ForAll(
                [p], z3.Implies(z3.And(0 <= p, p < s.n), z3.Select(s.arr, p) == d.total(p)), patterns=[z3.Select(s.arr, p)])))
    for sn, s in seqs.items():
        for n, (v, v0) in lv.items():
            out.append((f"|{sn}| == {n}", s.n == v))
    if i is not None:
        for n, (v, v0) in lv.items():
            for w, e in ints.items():
                for w2, e2 in ints.items():
                    if w != w2:
                        out.append((f"{n} == min({w}, i*{w2})", v == z3.If(i.e * e2 <= e, i.e * e2, e)))
    return out


def shuffle(ctx):
    pu = env().mod("profilers.profiler_utils")
    f = need(pu, "shuffle_in_chunks")
    for k, v in list(vars(pu).items()):
        if isinstance(v, type) and issubclass(v, dict) and v.__module__.startswith("dataprofiler"):
            setattr(pu, k, maps.rebase(v))
    pu.rng_utils = type("rng_utils", (), {"get_random_number_generator": staticmethod(lambda: maps.SymRng())})
    n = SymNum(ctx.fresh("rows", I), "int")
    cs = SymNum(ctx.fresh("chunk", I), "int")
    ctx.inputs.update(rows=n, chunk=cs)
    ctx.assume(z3.And(n.e >= 1, cs.e >= 1))
    out = Seq()
    ctx.run.ghosts = {"produced": out}
    for chunk in f(n, cs):
        ctx.alive()
        ctx.run.cover("a chunk is produced")
        left = n.e - out.n
        ctx.prove("chunk length: the chunk size, or what is left", chunk.n == z3.If(cs.e <= left, cs.e, left))
        ctx.prove("no empty chunk", chunk.n >= 1)
        c, d, p = (ctx.fresh(x, I) for x in ("c", "d", "p"))
        a, b = chunk._at(c), chunk._at(d)
        inc = z3.And(0 <= c, c < chunk.n)
        ctx.prove("indices are row numbers", z3.Implies(inc, z3.And(0 <= a, a < n.e)))
        ctx.prove("no index twice in a chunk", z3.Implies(z3.And(inc, 0 <= d, d < chunk.n, c != d), a != b))
        ctx.prove("no index of an earlier chunk again",
                  z3.Implies(z3.And(inc, 0 <= p, p < out.n), z3.Select(out.arr, p) != a))
        out.extend(chunk)
    ctx.alive()
    ctx.run.cover("exhausted")
    ctx.prove("all rows are produced", out.n == n.e)


def partition_invariants(loop, vars, slots, i):
    """what was produced so far is the first n elements, n = rounds * step, or an index kept by the loop"""
    out = []
    p = z3.Int("p!")
    arrs = {k: v for k, v in {**loop.locs0, **vars}.items() if isinstance(v, SymArray)}
    ints = {k: v.e for k, v in loop.locs0.items() if isinstance(v, SymNum) and v.e.sort() == I and z3.is_const(v.e)}
    for sn, s in slots.items():
        if not isinstance(s, Seq):
            continue
        for an, a in arrs.items():
            if i is not None:
                for w, e in ints.items():
                    out.append((f"|{sn}| == min(len({an}), i*{w})", s.n == z3.If(i.e * e <= a.n, i.e * e, a.n)))
            for w, v in vars.items():
                if isinstance(v, (SymNum, int)) and not isinstance(v, bool) and num_expr(v).sort() == I:
                    e = num_expr(v)
                    out.append((f"|{sn}| == min(len({an}), {w})", s.n == z3.If(e <= a.n, e, a.n)))
                    out.append((f"0 <= {w}", e >= 0))
            out.append((f"{sn} is a prefix of {an}", z3.ForAll(
                [p], z3.Implies(z3.And(0 <= p, p < s.n), z3.Select(s.arr, p) == a._at(p)), patterns=[z3.Select(s.arr, p)])))
    return out


def partition(ctx):
    pu = env().mod("profilers.profiler_utils")
    f = need(pu, "partition")
    n, cs = (SymNum(ctx.fresh(x, I), "int") for x in ("rows", "chunk"))
    ctx.inputs.update(rows=n, chunk=cs)
    ctx.assume(z3.And(n.e >= 0, cs.e >= 1))
    arr = ctx.fresh("data", z3.ArraySort(I, I))
    data = SymArray(n.e, lambda k: z3.Select(arr, k), kind="int", flavour="list", name="data", npy=False)
    out = Seq()
    ctx.run.ghosts = {"produced": out}
    for chunk in f(data, cs):
        ctx.alive()
        ctx.run.cover("a part is produced")
        left = n.e - out.n
        ctx.prove("part length: the part size, or what is left", chunk.n == z3.If(cs.e <= left, cs.e, left))
        ctx.prove("no empty part", chunk.n >= 1)
        c = ctx.fresh("c", I)
        ctx.prove("a part continues where the last one ended",
                  z3.Implies(z3.And(0 <= c, c < chunk.n), chunk._at(c) == z3.Select(arr, out.n + c)))
        out.extend(chunk)
    ctx.alive()
    ctx.run.cover("exhausted")
    ctx.prove("all elements are produced", out.n == n.e)


class Rows(Sym):
    def __init__(self, n):
        self.n = n

    def _dv_len(self):
        return self.n


def sample_size(cls):
    def run(ctx):
        pb = env().mod("profilers.profile_builder")
        C = need(pb, cls)
        f = need(C, "_get_sample_size")
        n, m = (SymNum(ctx.fresh(x, I), "int") for x in ("rows", "minimum"))
        r = SymNum(ctx.fresh("ratio", z3.RealSort()), "float")
        ctx.inputs.update(rows=n, minimum=m, ratio=r)
        ctx.assume(z3.And(n.e >= 1, m.e >= 1, r.e > 0, r.e <= 1))
        o = object.__new__(C)
        o._samples_per_update, o._min_sample_size, o._sampling_ratio = None, m, r
        k = num_expr(f(o, Rows(n)))
        ctx.run.cover("returns")
        ctx.prove("at most the rows there are", k <= n.e)
        ctx.prove("all rows of a small data set", z3.Implies(n.e <= m.e, k == n.e))
        ctx.prove("at least the minimum of a large data set", z3.Implies(n.e > m.e, k >= m.e))
        ctx.prove("at least the ratio", z3.ToReal(k) > r.e * z3.ToReal(n.e) - 1)
        if hasattr(C, "update_profile") and cls == "BaseProfiler":
            s = SymNum(ctx.fresh("asked", I), "int")
            ctx.assume(s.e >= 1)
            o._samples_per_update = s
            ctx.prove("what was asked for", num_expr(f(o, Rows(n))) == s.e)
    return run


PROOFS = {"sample size (profiler)": (sample_size("BaseProfiler"), {"covers": ["returns"]}),
          "sample size (column)": (sample_size("StructuredColProfiler"), {"covers": ["returns"]}),
          "partition": (partition, {"loop_specs": [partition_invariants], "covers": ["a part is produced", "exhausted"]}),
          "shuffle_in_chunks": (shuffle, {"loop_specs": [shuffle_invariants], "covers": ["a chunk is produced", "exhausted"]})}
ASSUMPTIONS = []
TRUSTED = []

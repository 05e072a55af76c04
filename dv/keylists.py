"""Lists (and sets, counters) of symbolic keys, of any length, as multisets: how often every key occurs.

Iterating a list of length n with counts c goes through elements e(0..n-1) with prefix counts p(i): p(0)=0, p(i+1)=p(i)[e(i)]+1,
p(i) <= c pointwise, p(n)=c.  The order is arbitrary; obligations speak about multisets only."""
from __future__ import annotations

import collections

import z3

from .core import Ctx, Sym, SymBool, SymNum, Unsupported, num_expr
from .keymaps import B, I, K, SymKey, i_, k_
from .loops import SymIter

CI = z3.ArraySort(K, I)


def same(name, f, g):
    """are two functions of keys (z3 bodies in k_) equal everywhere?  one path each"""
    c = Ctx.cur
    w = c.fresh(name + ".witness", K)
    s = c.fresh(name + ".same", B)
    c.assume(z3.Implies(z3.Not(s), z3.substitute(f, (k_, w)) != z3.substitute(g, (k_, w))))
    if c.branch(s, name):
        c.assume(z3.ForAll([k_], f == g))
        return True
    return False


class KSet(Sym):
    rep_type = set

    def __init__(self, has):
        self.has = has

    def _b(self):
        return z3.Select(self.has, k_)

    def __eq__(self, o):
        return same("sets equal", self._b(), o._b()) if isinstance(o, KSet) else False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class KCounter(Sym):
    rep_type = collections.Counter

    def __init__(self, cnt):
        self.cnt = cnt

    def __eq__(self, o):
        return same("counters equal", z3.Select(self.cnt, k_), z3.Select(o.cnt, k_)) if isinstance(o, KCounter) else False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class Walk:
    """one enumeration of a list"""

    def __init__(self, l):
        c = Ctx.cur
        self.cnt, self.n = l.cnt, l.n
        self.es = c.fresh(l.name + ".element", z3.ArraySort(I, K))
        self.pre = c.fresh(l.name + ".prefix", z3.ArraySort(I, CI))
        c.assume(z3.Select(self.pre, 0) == z3.K(K, z3.IntVal(0)))

    def prefix(self, i):
        i = z3.simplify(num_expr(i))
        c = Ctx.cur
        if z3.is_int_value(i) and i.as_long() == 0:
            return z3.K(K, z3.IntVal(0))
        if z3.is_add(i) and i.num_args() == 2 and z3.is_int_value(i.arg(0)) and i.arg(0).as_long() == 1:
            p, e = self.prefix(i.arg(1)), z3.Select(self.es, i.arg(1))
            return z3.Store(p, e, z3.Select(p, e) + 1)
        p = z3.Select(self.pre, i)
        at, ct = z3.Select(p, k_), z3.Select(self.cnt, k_)
        c.assume(z3.ForAll([k_], z3.And(at >= 0, at <= ct)))
        e = z3.Select(self.es, i)
        c.assume(z3.Implies(i < self.n, z3.Select(p, e) < z3.Select(self.cnt, e)))
        c.assume(z3.ForAll([k_], z3.Implies(i == self.n, at == ct)))
        return p


class KList(Sym):
    rep_type = list

    def __init__(self, cnt=None, n=None, name="list", native=None):
        self.cnt = z3.K(K, z3.IntVal(0)) if cnt is None else cnt
        self.n = z3.IntVal(0) if n is None else n
        self.name = name
        self.native = list(native or [])
        self.busy = False

    @classmethod
    def any(cls, ctx, name, kind=list):
        cnt, n = ctx.fresh(name + ".count", CI), ctx.fresh(name + ".len", I)
        ctx.assume(z3.ForAll([k_], z3.And(z3.Select(cnt, k_) >= 0, z3.Select(cnt, k_) <= (n if kind is list else 1))))
        ctx.assume(n >= 0)
        r = cls(cnt, n, name)
        r.rep_type = kind
        return r

    def concrete(self):
        return self.cnt.eq(z3.K(K, z3.IntVal(0))) and z3.is_int_value(self.n) and self.n.as_long() == 0

    def at(self, k=k_):
        return z3.Select(self.cnt, k)

    def _mut(self, k):
        if self.busy:
            Ctx.cur.stop(Unsupported("list changed while it is iterated"))
        if not isinstance(k, SymKey):
            Ctx.cur.stop(Unsupported(f"{type(k).__name__} in a list of symbolic keys"))
        if self.native:
            Ctx.cur.stop(Unsupported("concrete and symbolic elements in one list"))
        return k.e

    def append(self, k):
        if self.concrete() and not isinstance(k, SymKey):
            self.native.append(k)
            return
        e = self._mut(k)
        self.cnt = z3.Store(self.cnt, e, z3.Select(self.cnt, e) + 1)
        self.n = self.n + 1

    add = None

    def remove(self, k):
        if self.concrete() and not isinstance(k, SymKey):
            self.native.remove(k)
            return
        e = self._mut(k)
        if not Ctx.cur.branch(z3.Select(self.cnt, e) > 0, "element present"):
            raise ValueError("list.remove(x): x not in list")
        self.cnt = z3.Store(self.cnt, e, z3.Select(self.cnt, e) - 1)
        self.n = self.n - 1

    def _dv_contains(self, k):
        if self.concrete() and not isinstance(k, SymKey):
            return k in self.native
        if not isinstance(k, SymKey):
            Ctx.cur.stop(Unsupported("foreign element looked up"))
        return Ctx.cur.branch(z3.Select(self.cnt, k.e) > 0, "element present")

    __contains__ = _dv_contains

    def _dv_len(self):
        return len(self.native) if self.concrete() else SymNum(self.n, "int")

    def __bool__(self):
        if self.concrete():
            return bool(self.native)
        return Ctx.cur.branch(self.n > 0, "list not empty")

    @property
    def _dv_iter(self):
        if self.concrete():
            raise AttributeError("_dv_iter")

        def it():
            w = Walk(self)

            def at(i):
                self.busy = True
                e = z3.Select(w.es, num_expr(i))
                w.prefix(i)
                return SymKey(e)
            return SymIter(SymNum(self.n, "int"), at, w)
        return it

    def __iter__(self):
        if self.concrete():
            return iter(self.native)
        Ctx.cur.stop(Unsupported("native iteration over a symbolic list"))

    def copy(self):
        return KList(self.cnt, self.n, self.name, self.native)

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = self.copy()
        r.rep_type = self.rep_type
        return r

    def _dv_list(self):
        return self.copy()

    def _dv_set(self):
        has = Ctx.cur.fresh(self.name + ".set", z3.ArraySort(K, B))
        Ctx.cur.assume(z3.ForAll([k_], z3.Select(has, k_) == (self.at() > 0)))
        return KSet(has)

    def _dv_content(self):
        return (self.cnt.get_id(), self.n.get_id(), tuple(id(v) for v in self.native))

    def _dv_freeze(self):
        return self.copy()

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.cnt, self.n = c.fresh(path + ".count", CI), c.fresh(path + ".len", I)
        c.assume(z3.ForAll([k_], self.at() >= 0))


def list_invariants(loop, vars, slots, i):
    """annotations by type: a list that grows or shrinks by the elements seen, or by those of them that another list has"""
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(src, Walk):
        return out
    p = z3.Select(src.prefix(i), k_)
    scope = {k: v for k, v in loop.locs0.items() if isinstance(v, KList)}
    frozen = {**{k: v for k, v in scope.items() if k not in loop.slot_entry}, **{k: v for k, v in loop.slot_entry.items() if isinstance(v, KList)}}
    for n, r in slots.items():
        r0 = loop.slot_entry.get(n)
        if not isinstance(r, KList) or not isinstance(r0, KList):
            continue

        def fa(nm, body):
            out.append((f"{n}: {nm}", z3.ForAll([k_], body)))
        fa("grows by the elements seen", r.at() == r0.at() + p)
        fa("shrinks by the elements seen", r.at() == r0.at() - p)
        for on, o in frozen.items():
            m = z3.If(p < o.at(), p, o.at())
            fa(f"grows by the elements seen that {on} has", r.at() == r0.at() + m)
            fa(f"grows by the elements seen that {on} lacks", r.at() == r0.at() + p - m)
            fa(f"shrinks by the elements seen that {on} has", r.at() == r0.at() - m)
    return out


def key_lists(mod):
    """in this module, new lists may take symbolic keys, and Counter counts them"""
    import types
    d = types.SimpleNamespace(**vars(mod.__dict__["__dv__"]))
    d.mklist = lambda x: KList(name="list") if not x else x
    old = d.list
    d.list = lambda *a: KList(name="list") if not a else old(*a)
    isi = d.isinstance

    def inst(x, t):
        if isinstance(x, KList):
            return any(isinstance(u, type) and issubclass(x.rep_type, u) for u in (t if isinstance(t, tuple) else (t,)))
        return isi(x, t)
    d.isinstance = inst
    mod.__dict__["__dv__"] = d

    def counter(x=()):
        if isinstance(x, KList) and not x.concrete():
            return KCounter(x.cnt)
        return collections.Counter(x)
    base = next((v for v in vars(mod).values() if getattr(v, "__name__", None) == "collections" or type(v).__name__ == "Collections"), None)

    class Coll:
        def __getattr__(self, n):
            return counter if n == "Counter" else getattr(base, n)
    Coll.__name__ = "Collections"
    for n, v in list(vars(mod).items()):
        if v is base and base is not None:
            setattr(mod, n, Coll())
        elif v is collections.Counter:
            setattr(mod, n, counter)

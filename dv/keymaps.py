"""Dictionaries over an unbounded set of symbolic keys (categories, words, ...).

A map is a domain (Key -> Bool) and values (Key -> number).  Iterating enumerates the domain: key number i, with its inverse; every
key of the domain occurs exactly once, in an arbitrary order."""
from __future__ import annotations

import collections

import z3

from .core import Ctx, Sym, SymBool, SymNum, Unsupported, num_expr
from .loops import SymIter

I, B = z3.IntSort(), z3.BoolSort()
K = z3.DeclareSort("Key")
k_ = z3.Const("k!", K)
i_ = z3.Int("i!")


class SymKey(Sym):
    rep_type = str

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.e == o.e)
        return False

    def __ne__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.e != o.e)
        return True

    def __hash__(self):
        Ctx.cur.stop(Unsupported("symbolic key in a native container"))

    def _dv_fresh(self, name):
        return SymKey(Ctx.cur.fresh(name, K))

    def __deepcopy__(self, memo):
        return self

    def _dv_str(self):
        return self


class Enum:
    """an enumeration of a domain"""

    def __init__(self, m):
        c = Ctx.cur
        self.map = m
        self.has, self.val = m.has, m.val
        self.n = m.card()
        self.ks = c.fresh("key", z3.ArraySort(I, K))
        self.ix = c.fresh("place", z3.ArraySort(K, I))
        k, i = z3.Select(self.ks, i_), z3.Select(self.ix, k_)
        c.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < self.n), z3.And(z3.Select(self.has, k), z3.Select(self.ix, k) == i_)),
                           patterns=[k]))
        c.assume(z3.ForAll([k_], z3.Implies(z3.Select(self.has, k_), z3.And(0 <= i, i < self.n, z3.Select(self.ks, i) == k_)),
                           patterns=[i]))
        self.sums = {}

    def prefix_of(self, name, term, i):
        """sum over the first i keys of term(key); at i+1 unfolded once"""
        c = Ctx.cur
        if name not in self.sums:
            self.sums[name] = c.fresh(name, z3.ArraySort(I, z3.RealSort()))
            c.assume(z3.Select(self.sums[name], 0) == 0)
        a, i = self.sums[name], z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() == 0:
            return z3.RealVal(0)
        if z3.is_add(i) and i.num_args() == 2 and z3.is_int_value(i.arg(0)) and i.arg(0).as_long() == 1:
            return z3.Select(a, i.arg(1)) + term(z3.Select(self.ks, i.arg(1)))
        return z3.Select(a, i)

    def prefix(self, name, term, i):
        """sum over the first i keys of term(value); at i+1 unfolded once"""
        c = Ctx.cur
        if name not in self.sums:
            a = c.fresh(name, z3.ArraySort(I, z3.RealSort()))
            self.sums[name] = a
            c.assume(z3.Select(a, 0) == 0)
        a = self.sums[name]
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return z3.RealVal(0) if i.as_long() == 0 else z3.Select(a, i)
        if z3.is_add(i) and i.num_args() == 2 and z3.is_int_value(i.arg(0)) and i.arg(0).as_long() == 1:
            j = i.arg(1)
            return z3.Select(a, j) + term(z3.ToReal(z3.Select(self.val, z3.Select(self.ks, j))))
        return z3.Select(a, i)


def about(k):
    """what the quantified facts say about this key"""
    c = Ctx.cur
    for q in list(c.quant):
        if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == K:
            c.assume(z3.substitute_vars(q.body(), k))


class KeyMap(Sym):
    """concrete keys (of a dictionary that never sees a symbolic key) live in `native`"""
    facts = False
    rep_type = dict

    def __init__(self, has=None, val=None, default=None, name="map", native=None):
        self.has = has if has is not None else z3.K(K, z3.BoolVal(False))
        self.val = val if val is not None else Ctx.cur.fresh(name + ".val", z3.ArraySort(K, I))
        self.default_factory = default
        if default is not None:
            self.rep_type = collections.defaultdict
        self.name = name
        self.native = dict(native or {})

    # -- ghost
    def concrete(self):
        return self.has.eq(z3.K(K, z3.BoolVal(False)))

    def card(self):
        c = Ctx.cur
        memo = c.__dict__.setdefault("_cards", {})
        h = z3.simplify(self.has)
        if h.eq(z3.K(K, z3.BoolVal(False))):
            return z3.IntVal(len(self.native))
        if h.get_id() not in memo:
            n = c.fresh(self.name + ".distinct", I)
            c.assume(n >= 0)
            memo[h.get_id()] = (n, h)
        return memo[h.get_id()][0]

    def set_card(self, e):
        h = z3.simplify(self.has)
        Ctx.cur.__dict__.setdefault("_cards", {})[h.get_id()] = (e, h)

    def enum(self):
        memo = Ctx.cur.__dict__.setdefault("_enums", {})
        key = (self.has.get_id(), self.val.get_id())
        if key not in memo:
            memo[key] = Enum(self)
        return memo[key]

    # -- python
    def _key(self, k):
        if isinstance(k, SymKey):
            if self.native:
                Ctx.cur.stop(Unsupported("concrete and symbolic keys in one dictionary"))
            return k.e
        if self.concrete() and not isinstance(k, Sym):
            return None
        Ctx.cur.stop(Unsupported(f"key of type {type(k).__name__} of a symbolic dictionary"))

    def _wrap(self, e):
        return SymNum(e, "int")

    def __getitem__(self, k):
        e = self._key(k)
        if e is None:
            if k not in self.native and self.default_factory is not None:
                self.native[k] = self.default_factory()
            return self.native[k]
        if Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            return self._wrap(z3.Select(self.val, e))
        if self.default_factory is not None:
            v = self.default_factory()
            self[k] = v
            return v
        raise KeyError(k)

    def get(self, k, d=None):
        e = self._key(k)
        if e is None:
            return self.native.get(k, d)
        if Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            return self._wrap(z3.Select(self.val, e))
        return d

    def setdefault(self, k, d=None):
        e = self._key(k)
        if e is None:
            return self.native.setdefault(k, d)
        if not Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            self[k] = d
            return d
        return self._wrap(z3.Select(self.val, e))

    def __setitem__(self, k, v):
        e = self._key(k)
        if e is None:
            self.native[k] = v
            return
        if not isinstance(v, (int, SymNum)) or num_expr(v).sort() != I:
            Ctx.cur.stop(Unsupported("value of a symbolic dictionary"))
        self.has = z3.Store(self.has, e, z3.BoolVal(True))
        self.val = z3.Store(self.val, e, num_expr(v))

    def __delitem__(self, k):
        e = self._key(k)
        if e is None:
            del self.native[k]
            return
        if not Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            raise KeyError(k)
        self.has = z3.Store(self.has, e, z3.BoolVal(False))

    def pop(self, k, *d):
        e = self._key(k)
        if e is None:
            return self.native.pop(k, *d)
        if Ctx.cur.branch(z3.Select(self.has, e), "key present"):
            v = self._wrap(z3.Select(self.val, e))
            self.has = z3.Store(self.has, e, z3.BoolVal(False))
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def _dv_contains(self, k):
        e = self._key(k)
        if e is None:
            return k in self.native
        return Ctx.cur.branch(z3.Select(self.has, e), "key present")

    __contains__ = _dv_contains

    def _dv_len(self):
        if self.concrete():
            return len(self.native)
        return SymNum(self.card(), "int")

    def __len__(self):
        if self.concrete():
            return len(self.native)
        Ctx.cur.stop(Unsupported("native len of a symbolic dictionary"))

    def __bool__(self):
        if self.concrete():
            return bool(self.native)
        return Ctx.cur.branch(self.card() > 0, "dictionary not empty")

    def copy(self):
        m = type(self)(self.has, self.val, self.default_factory, self.name, self.native)
        m.facts = self.facts
        return m

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy
        m = self.copy()
        m.native = copy.deepcopy(self.native, memo)
        return m

    def _dv_dict(self, **k):
        m = self.copy()
        m.default_factory, m.rep_type = None, dict
        for a, b in k.items():
            m[a] = b
        return m

    def clear(self):
        self.has, self.native = z3.K(K, z3.BoolVal(False)), {}

    def update(self, o=None, **k):
        if self.concrete() and (o is None or isinstance(o, dict) or (isinstance(o, KeyMap) and o.concrete())) \
                and not (isinstance(o, KeyMap) and not o.native and not k):
            self.native.update(o.native if isinstance(o, KeyMap) else o or {}, **k)
            return
        if isinstance(o, dict) and not o and not k:
            return
        if not isinstance(o, KeyMap) or k or self.native or o.native:
            Ctx.cur.stop(Unsupported("update of a symbolic dictionary"))
        if o.concrete():
            return
        c = Ctx.cur
        has, val = c.fresh("has", z3.ArraySort(K, B)), c.fresh("val", z3.ArraySort(K, I))
        oh, ov = z3.Select(o.has, k_), z3.Select(o.val, k_)
        c.assume(z3.ForAll([k_], z3.And(z3.Select(has, k_) == z3.Or(z3.Select(self.has, k_), oh),
                                        z3.Select(val, k_) == z3.If(oh, ov, z3.Select(self.val, k_))),
                           patterns=[z3.Select(has, k_)]))
        self.has, self.val = has, val

    def _seq(self, f):
        e = self.enum()

        def at(i):
            i = num_expr(i)
            k = z3.Select(e.ks, i)
            Ctx.cur.assume(z3.Implies(z3.And(0 <= i, i < e.n), z3.And(z3.Select(e.has, k), z3.Select(e.ix, k) == i)))
            if self.facts:
                about(k)
            return f(e, k)
        return SymIter(SymNum(e.n, "int"), at, e)

    @property
    def _dv_iter(self):
        if self.concrete():
            raise AttributeError("_dv_iter")
        return lambda: self._seq(lambda e, k: SymKey(k))

    def keys(self):
        return self.native.keys() if self.concrete() else self

    @property
    def _dv_list(self):
        if self.concrete():
            raise AttributeError("_dv_list")
        return lambda: View(self, lambda e, k: SymKey(k))

    def items(self):
        return self.native.items() if self.concrete() else \
            View(self, lambda e, k: (SymKey(k), self._wrap(z3.Select(e.val, k))))

    def values(self):
        return self.native.values() if self.concrete() else View(self, lambda e, k: self._wrap(z3.Select(e.val, k)))

    def __iter__(self):
        if self.concrete():
            return iter(self.native)
        Ctx.cur.stop(Unsupported("native iteration over a symbolic dictionary"))

    # -- frames
    def _dv_content(self):
        return (self.has.get_id(), self.val.get_id(), tuple((k, id(v)) for k, v in self.native.items()))

    def _dv_freeze(self):
        return self.copy()

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        if self.native:
            c.stop(Unsupported("dictionary of concrete keys changes in a symbolic loop"))
        self.has = c.fresh(path + ".has", z3.ArraySort(K, B))
        self.val = c.fresh(path + ".val", z3.ArraySort(K, I))


def key_dicts(mod):
    """in this module, new dictionaries may take symbolic keys"""
    def new(*a, **k):
        m = KeyMap(default=a[0] if a else None, name="dict")
        if len(a) > 1:
            m = init(m, a[1])
        return m

    def init(m, o):
        if isinstance(o, KeyMap):
            m.has, m.val, m.native = o.has, o.val, dict(o.native)
        else:
            m.native = dict(o)
        return m

    class Collections:
        def __getattr__(self, n):
            return new if n == "defaultdict" else getattr(collections, n)

    for n, v in list(vars(mod).items()):
        if v is collections:
            setattr(mod, n, Collections())
        elif v is collections.defaultdict:
            setattr(mod, n, new)
    import types
    d = types.SimpleNamespace(**vars(mod.__dict__["__dv__"]))
    d.mkdict = lambda x: KeyMap(name="dict") if not x else x
    old = d.dict
    d.dict = lambda *a, **k: KeyMap(name="dict") if not a and not k else old(*a, **k)
    isi = d.isinstance

    def inst(x, t):
        if isinstance(x, KeyMap):
            ts = t if isinstance(t, tuple) else (t,)
            return any(u is new and x.rep_type is collections.defaultdict or (isinstance(u, type) and issubclass(x.rep_type, u)) for u in ts)
        ts = t if isinstance(t, tuple) else (t,)
        return isi(x, tuple(collections.defaultdict if u is new else u for u in ts))
    d.isinstance = inst
    mod.__dict__["__dv__"] = d


class View(Sym):
    def __init__(self, m, f):
        self.m = m.copy()
        self.f = f

    rep_type = list

    def _dv_iter(self):
        return self.m._seq(self.f)

    def _dv_len(self):
        return self.m._dv_len()

    def _dv_list(self):
        return self

    def _dv_contains(self, x):
        """is some value of the dictionary x? one path each"""
        c = Ctx.cur
        w, s = c.fresh("holder", K), c.fresh("value present", B)
        t = z3.substitute(self._term(x), (k_, w))
        c.assume(z3.Implies(s, z3.And(z3.Select(self.m.has, w), t)))
        if c.branch(s, "value present"):
            return True
        c.assume(z3.ForAll([k_], z3.Implies(z3.Select(self.m.has, k_), z3.Not(self._term(x)))))
        return False

    def _term(self, x):
        v = self.f(self.m, k_)
        if isinstance(v, SymNum) and isinstance(x, (int, float, SymNum)):
            return v.e == num_expr(x)
        Ctx.cur.stop(Unsupported("membership in a view"))

    def __deepcopy__(self, memo):
        return self


def map_invariants(loop, vars, slots, i):
    """annotations by type: a dictionary filled from an enumerated one, alone or together with a third"""
    out = []
    src = getattr(loop.seq, "src", None) if loop.seq is not None else None
    if i is None or not isinstance(src, Enum):
        return out
    scope = {k: v for k, v in {**loop.locs0, **loop.entry}.items() if isinstance(v, KeyMap)}
    done = z3.And(z3.Select(src.has, k_), z3.Select(src.ix, k_) < i.e)
    v = z3.Select(src.val, k_)
    for n, r in slots.items():
        r0 = loop.slot_entry.get(n)
        if not isinstance(r, KeyMap) or not isinstance(r0, KeyMap):
            continue
        h, w = z3.Select(r.has, k_), z3.Select(r.val, k_)
        h0, w0 = z3.Select(r0.has, k_), z3.Select(r0.val, k_)

        def fa(nm, body):
            out.append((f"{n}: {nm}", z3.ForAll([k_], body)))
        fa("domain grows by the keys seen", h == z3.Or(h0, done))
        fa("values are those of the keys seen", w == z3.If(done, v, w0))
        fa("values accumulate those of the keys seen", w == z3.If(done, z3.If(h0, w0 + v, v), w0))
        for on, o in scope.items():
            if o is r:
                continue
            oh, ov = z3.Select(o.has, k_), z3.Select(o.val, k_)
            fa(f"domain grows by the keys seen not in {on}", h == z3.Or(h0, z3.And(done, z3.Not(oh))))
            fa(f"values plus those of {on}", w == z3.If(done, z3.If(oh, v + ov, v), w0))
            fa(f"values of the keys seen not in {on}", w == z3.If(z3.And(done, z3.Not(oh)), v, w0))
    return out

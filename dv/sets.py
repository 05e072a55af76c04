"""Sets of symbolic integers (row identities)."""
from __future__ import annotations

import builtins

import z3

from .core import Ctx, Sym, SymNum, Unsupported, num_expr

I, B = z3.IntSort(), z3.BoolSort()
A = z3.ArraySort(I, B)
x_ = z3.Int("x!")
EMPTY = z3.K(I, z3.BoolVal(False))


def card(arr):
    """number of members; sets proved equal are identified by `same`"""
    c = Ctx.cur
    if arr.eq(EMPTY):
        return z3.IntVal(0)
    memo = c.__dict__.setdefault("_setcards", {})
    if arr.get_id() not in memo:
        n = c.fresh("card", I)
        c.assume(n >= 0)
        c.assume(z3.ForAll([x_], z3.Implies(n == 0, z3.Not(z3.Select(arr, x_))), patterns=[z3.Select(arr, x_)]))
        memo[arr.get_id()] = (n, arr)
    return memo[arr.get_id()][0]


def same(arr):
    """extensionality: every set counted so far that has the members of arr has its cardinality"""
    c = Ctx.cur
    n = card(arr)
    for m, b in list(c.__dict__.get("_setcards", {}).values()):
        if b.eq(arr):
            continue
        r = c.check_q(z3.ForAll([x_], z3.Select(arr, x_) == z3.Select(b, x_)))
        if r == z3.unsat:
            c.assume(m == n)
    return n


def defined(name, body):
    """a fresh set with x in it iff body(x)"""
    c = Ctx.cur
    a = c.fresh(name, A)
    c.assume(z3.ForAll([x_], z3.Select(a, x_) == body(x_), patterns=[z3.Select(a, x_)]))
    return a


class IntSet(Sym):
    rep_type = builtins.set

    def __init__(self, arr=None, name="set"):
        self.arr = arr if arr is not None else EMPTY
        self.name = name

    def has(self, e):
        return z3.Select(self.arr, e)

    def _of(self, o):
        if isinstance(o, IntSet):
            return o.arr
        if isinstance(o, (builtins.set, frozenset, list, tuple, range)) and not o:
            return EMPTY
        Ctx.cur.stop(Unsupported(f"set operation with {type(o).__name__}"))

    def _op(self, o, f, name):
        b = self._of(o)
        a = self.arr
        return IntSet(defined(name, lambda x: f(z3.Select(a, x), z3.Select(b, x))), name)

    def union(self, *os):
        r = IntSet(self.arr, self.name)
        for o in os:
            r = r._op(o, z3.Or, "union")
        return r

    def intersection(self, *os):
        r = IntSet(self.arr, self.name)
        for o in os:
            r = r._op(o, z3.And, "meet")
        return r

    def difference(self, *os):
        r = IntSet(self.arr, self.name)
        for o in os:
            r = r._op(o, lambda p, q: z3.And(p, z3.Not(q)), "minus")
        return r

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __ror__ = union
    __rand__ = intersection

    def update(self, *os):
        for o in os:
            self.arr = self._op(o, z3.Or, "union").arr

    def intersection_update(self, *os):
        for o in os:
            self.arr = self._op(o, z3.And, "meet").arr

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def add(self, v):
        self.arr = z3.Store(self.arr, num_expr(v), z3.BoolVal(True))

    append = add

    def sort(self, **k):
        return None

    def copy(self):
        r = IntSet(self.arr, self.name)
        r.rep_type = self.rep_type
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    _dv_set = copy

    def _dv_list(self):
        r = self.copy()
        r.rep_type = list
        return r

    def _dv_sorted(self, **k):
        return self._dv_list()

    def _dv_len(self):
        return SymNum(card(self.arr), "int")

    def __bool__(self):
        return Ctx.cur.branch(card(self.arr) > 0, "set not empty")

    def _dv_contains(self, v):
        return Ctx.cur.branch(self.has(num_expr(v)), "in set")

    def __add__(self, d):
        """labels shifted (Index + number)"""
        e = num_expr(d)
        a = self.arr
        return IntSet(defined("shifted", lambda x: z3.Select(a, x - e)), "shifted")

    def _dv_comp(self, kind, elt, cond):
        c = Ctx.cur
        if kind not in ("set", "list", "gen"):
            c.stop(Unsupported("comprehension over a set"))
        v = c.fresh("member", I)
        r = elt(SymNum(v, "int"))
        if isinstance(r, SymNum) and cond is None:
            d = z3.simplify(r.e - v)
            if v.get_id() not in [t.get_id() for t in _consts(d)]:
                return self + SymNum(d, "int")
        if isinstance(r, SymNum) and r.e.eq(v) and cond is not None:
            a = self.arr
            k = _formula(lambda e: cond(SymNum(e, "int")))
            return IntSet(defined("filtered", lambda x: z3.And(z3.Select(a, x), k(x))), "filtered")
        c.stop(Unsupported("comprehension over a set of row identities"))

    def _dv_fresh(self, name):
        r = IntSet(Ctx.cur.fresh(name, A), name)
        r.rep_type = self.rep_type
        return r

    def __eq__(self, o):
        Ctx.cur.stop(Unsupported("equality of sets"))

    __hash__ = None

    def _dv_content(self):
        return (self.arr.get_id(),)

    def _dv_freeze(self):
        return self.copy()

    def _dv_havoc(self, loop, path):
        self.arr = Ctx.cur.fresh(path, A)

    def __iter__(self):
        Ctx.cur.stop(Unsupported("iteration over a symbolic set"))


def _consts(e):
    out, work = [], [e]
    while work:
        t = work.pop()
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        work += t.children()
    return out


def _formula(f):
    """truth of f(v) as a formula in v: f is run once per outcome of its branches"""
    c = Ctx.cur
    v = c.fresh("v", I)
    real = c.branch
    paths = []
    script = [[]]
    try:
        while script:
            s = script.pop()
            pos = [0]
            conds = []

            def br(e, label=None):
                if pos[0] < len(s):
                    d = s[pos[0]]
                else:
                    d = True
                    script.append(s[:pos[0]] + [False])
                    s.append(True)
                pos[0] += 1
                conds.append(e if d else z3.Not(e))
                return d
            c.branch = br
            if f(v):
                paths.append(z3.And(*conds) if conds else z3.BoolVal(True))
            if len(script) > 64:
                c.stop(Unsupported("condition with too many cases"))
    finally:
        del c.branch
    e = z3.Or(*paths) if paths else z3.BoolVal(False)
    return lambda x: z3.substitute(e, (v, x))


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set)

    def __call__(cls, *a):
        if not a:
            return IntSet()
        if isinstance(a[0], IntSet):
            return a[0].copy()
        return builtins.set(*a)

    def __getattr__(cls, n):
        return getattr(builtins.set, n)


class SetShim(metaclass=_SetMeta):
    @staticmethod
    def union(*a):
        if any(isinstance(x, IntSet) for x in a):
            r = a[0] if isinstance(a[0], IntSet) else IntSet()
            return r.union(*a[1:])
        return builtins.set.union(*a)

    @staticmethod
    def intersection(*a):
        if any(isinstance(x, IntSet) for x in a):
            return a[0].intersection(*a[1:])
        return builtins.set.intersection(*a)


def int_sets(mod):
    """in this module, new sets take symbolic integers"""
    import types
    mod.__dict__["set"] = SetShim
    d = types.SimpleNamespace(**vars(mod.__dict__["__dv__"]))
    d.set = SetShim
    mod.__dict__["__dv__"] = d

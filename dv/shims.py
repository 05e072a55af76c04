"""Models of the dependencies (numpy, pandas, scipy, warnings, ...) on symbolic
values; on concrete values every call goes to the real library.  These models
are the assumed contracts listed in the evidence."""
from __future__ import annotations

import builtins
import collections
import math
import types

import numpy as np
import pandas as pd
import scipy
import scipy.stats
import z3

from . import arrays, core, loops, series, heap
from .core import (Ctx, Sym, SymBool, SymNum, SymStr, UNDEF, Unsupported, as_bool_expr, is_sym, isnan, isspecial, ite,
                   num_expr, sqrt, to_real)
from .arrays import SymArray, SymMask
from .series import NumSeries, RawSeries, Elem

USED = collections.Counter()     # which assumed contracts were exercised


def used(name):
    USED[name] += 1


def deep_sym(x, depth=3):
    if isinstance(x, Sym) or hasattr(x, "_dv_iter"):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(y, depth - 1) for y in x.values())
    return False


ALWAYS = set()      # numpy functions a harness wants modelled on concrete arguments too


class ModShim(types.ModuleType):
    def __init__(self, real, models):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_models"] = models

    def __getattr__(self, name):
        real = self.__dict__["_real"]
        models = self.__dict__["_models"]
        if name in models and models[name] is not None and isinstance(models[name], types.ModuleType):
            return models[name]
        target = getattr(real, name)
        if not callable(target) or isinstance(target, type):
            if name in models:
                return models[name]
            return target
        model = models.get(name)

        def call(*a, **k):
            if name in ALWAYS or any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
                c = Ctx.cur
                c.alive()
                if model is None:
                    c.stop(Unsupported(f"{real.__name__}.{name} on symbolic arguments"))
                used(f"{real.__name__}.{name}")
                return model(*a, **k)
            return target(*a, **k)
        call.__name__ = name
        call._dv_target = target
        return call


def _quot(e):
    """(a, b) when e = a / b for integers a, b"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
        a, b = e.arg(0), e.arg(1)
        if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL for x in (a, b)):
            return a.arg(0), b.arg(0)
    return None


def m_ceil(x):
    c = Ctx.cur
    if x.kind == "int":
        return x
    m = c.fresh("ceil", z3.IntSort())
    q = _quot(x.e)
    if q and c.check(q[1] <= 0)[0] == z3.unsat:
        c.assume(z3.And((m - 1) * q[1] < q[0], q[0] <= m * q[1]))
    else:
        c.assume(z3.And(z3.ToReal(m) - 1 < x.e, x.e <= z3.ToReal(m)))
    return SymNum(m, "int")


def m_floor(x):
    c = Ctx.cur
    if x.kind == "int":
        return x
    m = c.fresh("floor", z3.IntSort())
    q = _quot(x.e)
    if q and c.check(q[1] <= 0)[0] == z3.unsat:
        c.assume(z3.And(m * q[1] <= q[0], q[0] < (m + 1) * q[1]))
    else:
        c.assume(z3.And(z3.ToReal(m) <= x.e, x.e < z3.ToReal(m) + 1))
    return SymNum(m, "int")


# ---------------------------------------------------------------- numpy
def np_isnan(x):
    if isinstance(x, SymNum):
        return False
    if isinstance(x, (list, tuple)):
        return np.array([bool(np_isnan(v)) if is_sym(v) else bool(np.isnan(v)) for v in x])
    Ctx.cur.stop(Unsupported("np.isnan"))


def np_isinf(x):
    if isinstance(x, SymNum):
        return False
    Ctx.cur.stop(Unsupported("np.isinf"))


def np_abs(x):
    if isinstance(x, SymNum):
        return abs(x)
    Ctx.cur.stop(Unsupported("np.abs"))


def np_power(x, k):
    return x ** k


def np_sqrt(x):
    if isinstance(x, SymNum):
        return sqrt(x)
    Ctx.cur.stop(Unsupported("np.sqrt"))


def np_var(x, ddof=0):
    if isinstance(x, NumSeries):
        return series.var(x, ddof)
    Ctx.cur.stop(Unsupported("np.var"))


def np_sum(x, axis=None):
    if isinstance(x, (NumSeries, SymMask, SymArray)):
        return x.sum()
    if isinstance(x, (list, tuple)):
        return dv_sum(x)
    Ctx.cur.stop(Unsupported("np.sum"))


def np_mean(x):
    if isinstance(x, NumSeries):
        return x.mean()
    Ctx.cur.stop(Unsupported("np.mean"))


def np_zeros(shape, dtype=float):
    n = shape[0] if isinstance(shape, tuple) else shape
    return arrays.zeros(n)


def np_linspace(a, b, num=50):
    return arrays.linspace(a, b, num)


def np_round(x, decimals=0):
    if type(x).__name__ == "Bag":
        from . import bags
        return bags.round_bag(x)
    if isinstance(x, SymNum):
        r = core.sround(x)
        return SymNum(to_real(r.e), "float", True) if isinstance(r, SymNum) else r
    if isinstance(x, SymArray):
        c = Ctx.cur
        f = c.fresh("rounded", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        h = z3.RealVal("1/2")
        src = x

        def at(i):
            r = z3.ToReal(z3.Select(f, i))
            return r
        a = SymArray(x.n, at, "float", None, x.nonneg, arrays.T, x.asc, name="round(" + x.name + ")")
        base_at = a.at

        def at2(i):
            i = arrays._I(i)
            v = base_at(i)
            s = src.at(i)
            c.assume(z3.And(v.e - h <= s.e, s.e <= v.e + h))
            return v
        a.at = at2
        return a
    Ctx.cur.stop(Unsupported("np.round"))


def np_float64(x):
    if isinstance(x, SymNum):
        return SymNum(to_real(x.e), "float", True)
    return np.float64(x)


def np_int64(x):
    if isinstance(x, SymNum):
        return SymNum(x.e, "int", True)
    return np.int64(x)


def np_log(x):
    c = Ctx.cur
    if isinstance(x, SymNum):
        if c.branch(x.e <= 0, "log of non-positive"):
            if c.branch(x.e == 0):
                return np.float64("-inf")
            return np.float64("nan")
        f = z3.Function("ln", z3.RealSort(), z3.RealSort())
        e = to_real(x.e)
        r = f(e)
        # sign of the logarithm, and ln(1) = 0
        c.assume(z3.And(z3.Implies(e > 1, r > 0), z3.Implies(e < 1, r < 0), z3.Implies(e == 1, r == 0)))
        return SymNum(r, "float", True)
    c.stop(Unsupported("np.log"))


class _NpCtor:
    """np.float64 / np.int64: a type in annotations/isinstance, a converter when called"""


def make_np(extra=None):
    models = dict(isnan=np_isnan, isinf=np_isinf, abs=np_abs, absolute=np_abs, power=np_power, sqrt=np_sqrt, var=np_var,
                  sum=np_sum, mean=np_mean, zeros=np_zeros, linspace=np_linspace, round=np_round, log=np_log,
                  square=lambda x: x * x, add=lambda a, b: a + b, subtract=lambda a, b: a - b,
                  multiply=lambda a, b: a * b, divide=lambda a, b: a / b, true_divide=lambda a, b: a / b,
                  negative=lambda a: -a, fabs=np_abs,
                  isfinite=lambda x: True if isinstance(x, SymNum) else Ctx.cur.stop(Unsupported("isfinite")),
                  minimum=lambda a, b: dv_min(a, b), maximum=lambda a, b: dv_max(a, b))
    from . import bags
    models.update(bags.MODELS)
    if extra:
        models.update(extra)
    m = ModShim(np, models)
    m.__dict__["float64"] = _conv_type(np.float64, np_float64)
    m.__dict__["int64"] = _conv_type(np.int64, np_int64)
    return m


class _ConvMeta(type):
    def __call__(cls, *a, **k):
        if a and is_sym(a[0]):
            return cls._f(*a)
        return cls._real(*a, **k)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _conv_type(real, f):
    return _ConvMeta(real.__name__, (), {"_real": real, "_f": staticmethod(f)})


# ---------------------------------------------------------------- builtins
def unconv(t):
    if isinstance(t, tuple):
        return tuple(unconv(x) for x in t)
    return getattr(t, "_real", t) if isinstance(t, _ConvMeta) else t


def dv_isinstance(x, t):
    t = unconv(t)
    if isinstance(x, Sym):
        rt = x.rep_type
        try:
            return issubclass(rt, t)
        except TypeError:
            return builtins.isinstance(rt(), t)
    return builtins.isinstance(x, t)


def dv_len(x):
    if hasattr(x, "_dv_len"):
        return x._dv_len()
    return builtins.len(x)


def _pick(args, key, better):
    best = args[0]
    bk = key(best) if key else best
    for a in args[1:]:
        ak = key(a) if key else a
        c = better(ak, bk)
        if isinstance(c, SymBool) and not key and isinstance(a, (SymNum, int, float, np.number)) \
                and isinstance(best, (SymNum, int, float, np.number)) and not isspecial(a) and not isspecial(best) \
                and not isinstance(a, SymStr) and not isinstance(best, SymStr):
            best = ite(c, a, best)
            bk = best
        elif c:
            best, bk = a, ak
    return best


def dv_min(*args, key=None, default=UNDEF):
    if len(args) == 1:
        args = _seq(args[0])
        if isinstance(args, Sym):
            return args.min()
        if not args and default is not UNDEF:
            return default
    if not any(is_sym(a) for a in args) and not key:
        return builtins.min(args)
    return _pick(list(args), key, lambda a, b: a < b)


def dv_max(*args, key=None, default=UNDEF):
    if len(args) == 1:
        args = _seq(args[0])
        if isinstance(args, Sym):
            return args.max()
        if not args and default is not UNDEF:
            return default
    if not any(is_sym(a) for a in args) and not key:
        return builtins.max(args)
    return _pick(list(args), key, lambda a, b: a > b)


def _seq(x):
    if isinstance(x, Sym):
        return x
    return builtins.list(x)


def dv_sum(x, start=0):
    if isinstance(x, (NumSeries, SymArray, SymMask)):
        used("builtins.sum over a Series")
        return x.sum() if not (isinstance(start, int) and start == 0 and False) else x.sum()
    if hasattr(x, "_dv_sum"):
        return x._dv_sum()
    if hasattr(x, "_dv_iter"):
        Ctx.cur.stop(Unsupported("sum over symbolic iterable"))
    r = start
    for v in x:
        r = r + v
    return r


def dv_float(*a):
    if a and isinstance(a[0], SymNum) and not isinstance(a[0], SymStr):
        return SymNum(to_real(a[0].e), "float", False)
    if a and isinstance(a[0], SymBool):
        return SymNum(to_real(a[0]._n().e), "float", False)
    if a and isinstance(a[0], Elem):
        return a[0].to_float()
    if a and isinstance(a[0], Sym):
        Ctx.cur.stop(Unsupported("float() of symbolic non-number"))
    return builtins.float(*a)


def dv_int(*a):
    if a and hasattr(a[0], "_dv_int"):
        return a[0]._dv_int()
    if a and isinstance(a[0], SymBool):
        return a[0]._n()
    if a and isinstance(a[0], SymNum) and not isinstance(a[0], SymStr):
        x = a[0]
        if x.kind == "int":
            return SymNum(x.e, "int", False)
        return SymNum(core.trunc(x.e), "int", False)
    if a and isinstance(a[0], Sym):
        Ctx.cur.stop(Unsupported("int() of symbolic non-number"))
    return builtins.int(*a)


def dv_str(*a):
    if a and isinstance(a[0], Sym):
        if hasattr(a[0], "_dv_str"):
            return a[0]._dv_str()
        return "<sym>"
    return builtins.str(*a)


def dv_bool(x=False):
    return True if x else False


def dv_abs(x):
    return builtins.abs(x)


class SymRange(Sym):
    rep_type = range

    def __deepcopy__(self, memo):
        return self

    def __init__(self, a, b, st=1):
        self.a, self.b, self.st = a, b, st

    def _dv_count(self):
        a, b, st = num_expr(self.a), num_expr(self.b), num_expr(self.st)
        if isinstance(self.st, int):
            if self.st <= 0:
                Ctx.cur.stop(Unsupported("range step"))
            if self.st == 1:
                return z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        if is_sym(self.st):
            if not hasattr(self, "_n"):
                # the number of steps q: (q-1)*st < b-a <= q*st
                c = Ctx.cur
                q = c.fresh("steps", z3.IntSort())
                c.assume(z3.And((q - 1) * st < b - a, b - a <= q * st))
                self._n = z3.If(b > a, q, z3.IntVal(0))
            return self._n
        return z3.If(b > a, (b - a + st - 1) / st, z3.IntVal(0))

    def _dv_len(self):
        return SymNum(self._dv_count(), "int")

    def _dv_iter(self):
        a, st = self.a, self.st
        s = loops.SymIter(SymNum(self._dv_count(), "int"), lambda i: a + i * st, self)
        return s

    def __iter__(self):
        Ctx.cur.stop(Unsupported("native iteration over symbolic range"))


def dv_range(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 3 and is_sym(a[2]):
            if not Ctx.cur.branch(a[2].e > 0, "range step positive"):
                Ctx.cur.stop(Unsupported("non-positive range step"))
        return SymRange(*a)
    return builtins.range(*a)


class Wrapped:
    def __init__(self, seqs, combine, src=None):
        self.seqs = seqs
        self.its = [s._dv_iter() for s in seqs]
        self.combine = combine
        self.src = src

    def _dv_iter(self):
        n = self.its[0].length
        for o in self.its[1:]:
            n = dv_min(n, o.length)
        return loops.SymIter(n, self.combine(self.its), self.src if self.src is not None else self.its[0].src)

    def _dv_iter_only(self):
        w = Wrapped(self.seqs, self.combine, self.src)
        return w

    def __iter__(self):
        Ctx.cur.stop(Unsupported("native iteration over symbolic zip/enumerate"))


def dv_enumerate(x, start=0):
    if hasattr(x, "_dv_iter"):
        return Wrapped([x], lambda its: (lambda i: (i + start, its[0].at(i))))
    return builtins.enumerate(x, start)


def dv_zip(*xs, strict=False):
    if any(hasattr(x, "_dv_iter") for x in xs):
        if not all(hasattr(x, "_dv_iter") for x in xs):
            Ctx.cur.stop(Unsupported("zip of symbolic and concrete"))
        w = Wrapped(xs, lambda its: (lambda i: tuple(t.at(i) for t in its)))
        from . import bags
        if all(isinstance(x, bags.Selection) for x in xs):
            w._dv_comp = lambda kind, elt, cond: bags.comp_selected(list(xs), kind, elt, cond, tuple)
        elif all(isinstance(x, SymArray) for x in xs):
            w._dv_comp = lambda kind, elt, cond: comp_arrays(list(xs), kind, elt, cond, w)
        return w
    return builtins.zip(*xs)


def dv_sorted(x, **k):
    if hasattr(x, "_dv_sorted"):
        return x._dv_sorted(**k)
    if hasattr(x, "_dv_iter"):
        Ctx.cur.stop(Unsupported("sorted of symbolic"))
    return builtins.sorted(x, **k)


def dv_any(x):
    if hasattr(x, "_dv_any"):
        return x._dv_any()
    if isinstance(x, SymMask):
        return x.any()
    for v in x:
        if v:
            return True
    return False


def dv_all(x):
    if hasattr(x, "_dv_all"):
        return x._dv_all()
    if isinstance(x, SymMask):
        return x.all()
    for v in x:
        if not v:
            return False
    return True


def dv_list(x=()):
    if hasattr(x, "_dv_list"):
        return x._dv_list()
    if isinstance(x, SymArray):
        return x.tolist()
    if hasattr(x, "_dv_iter"):
        Ctx.cur.stop(Unsupported("list() of symbolic iterable"))
    return builtins.list(x)


def dv_set(x=()):
    if hasattr(x, "_dv_set"):
        return x._dv_set()
    if hasattr(x, "_dv_iter"):
        Ctx.cur.stop(Unsupported("set() of symbolic iterable"))
    return builtins.set(x)


def dv_dict(*a, **k):
    if a and hasattr(a[0], "_dv_dict"):
        return a[0]._dv_dict(**k)
    return builtins.dict(*a, **k)


def dv_tuple(x=()):
    if hasattr(x, "_dv_iter"):
        Ctx.cur.stop(Unsupported("tuple() of symbolic iterable"))
    return builtins.tuple(x)


def dv_map(f, *xs):
    if any(hasattr(x, "_dv_iter") or isinstance(x, Sym) for x in xs):
        if len(xs) == 1 and hasattr(xs[0], "_dv_map"):
            return xs[0]._dv_map(f)
        Ctx.cur.stop(Unsupported("map over symbolic"))
    if f is builtins.len:
        f = dv_len
    return builtins.map(f, *xs)


def dv_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].rep_type
    return builtins.type(*a)


def dv_round(x, nd=None):
    if isinstance(x, SymNum):
        return core.sround(x, nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def dv_contains(x, c):
    if hasattr(c, "_dv_contains"):
        return c._dv_contains(x)
    if hasattr(x, "_dv_in"):
        return x._dv_in(c)
    if isinstance(x, Sym) and isinstance(c, (list, tuple)):
        for y in c:
            if y is x or (x == y):
                return True
        return False
    if isinstance(c, (list, tuple)) and any(isinstance(y, Sym) for y in c):
        for y in c:
            if y is x or (y == x if isinstance(y, Sym) else x == y):
                return True
        return False
    return x in c


def dv_open(*a, **k):
    f = Ctx.cur.run.__dict__.get("open_model") if Ctx.cur else None
    if f is not None:
        return f(*a, **k)
    return builtins.open(*a, **k)


def symbolic_iter(x):
    return hasattr(x, "_dv_iter") or hasattr(x, "_dv_comp")


def comp_arrays(xs, kind, elt, cond, w):
    """comprehension over zipped arrays: numbers, or one multiset per index"""
    from . import bags
    c = Ctx.cur
    if cond is None and c.branch(xs[0].n > 0, "comprehension non-empty"):
        j = c.fresh("compidx", z3.IntSort())
        c.assume(z3.And(j >= 0, j < xs[0].n))
        r = elt(tuple(x.at(j) for x in xs))
        if isinstance(r, bags.Bag):
            m = SymMask(xs[0].n, lambda i: arrays.T, None, xs[0].n)
            return bags.comp_selected([bags.Selection(x, m) for x in xs], kind, elt, cond, tuple)
    return comp(kind, w._dv_iter_only(), elt, cond)


def comp(kind, it, elt, cond):
    c = Ctx.cur
    c.alive()
    if hasattr(it, "_dv_comp"):
        return it._dv_comp(kind, elt, cond)
    if cond is None and kind in ("list", "gen"):
        s = it._dv_iter()
        probe = c.fresh("compidx", z3.IntSort())

        # generic element; results must be numbers
        def at(i):
            r = elt(s.at(SymNum(i, "int")))
            return num_expr(r)
        n = num_expr(s.length)
        c.assume(z3.Implies(n > 0, z3.And(probe >= 0, probe < n)))
        if c.branch(n > 0, "comprehension non-empty"):
            known = len(c.pc), len(c.quant), len(c.heavy)
            r = elt(s.at(SymNum(probe, "int")))
            if isinstance(r, (SymNum, int, float)) and not isspecial(r):
                k = r.kind if isinstance(r, SymNum) else ("float" if isinstance(r, float) else "int")
                if isinstance(r, SymNum) and known == (len(c.pc), len(c.quant), len(c.heavy)):
                    # nothing was learnt about this element in particular: the others follow by substitution (names the
                    # element refers to may be bound anew later)
                    e = r.e
                    return SymArray(n, lambda i: z3.substitute(e, (probe, i if z3.is_expr(i) else z3.IntVal(i))), k, flavour="list", name="comp")
                return SymArray(n, at, k, flavour="list", name="comp")
            if hasattr(r, "_dv_pieces"):
                return r._dv_pieces(n, probe)
            c.stop(Unsupported(f"comprehension of {type(r).__name__}"))
        return SymArray(z3.IntVal(0), lambda i: z3.RealVal(0), "float", z3.RealVal(0), flavour="list", name="emptycomp")
    c.stop(Unsupported("comprehension over a symbolic iterable"))


def probe(f):
    try:
        return f()
    except (NameError, UnboundLocalError):
        return UNDEF


def dv_next(it, *d):
    if hasattr(it, "_dv_next"):
        return it._dv_next(*d)
    return builtins.next(it, *d)


def dv_iter(x, *a):
    return builtins.iter(x, *a)


def mkpairs(ps):
    """a dictionary display with computed keys"""
    from .keymaps import KeyMap, SymKey
    if any(isinstance(k, SymKey) for k, _ in ps):
        m = KeyMap(name="display")
        for k, v in ps:
            m[k] = v
        m.keys_set = [k.e for k, _ in ps]
        return m
    return builtins.dict(ps)


dv = types.SimpleNamespace(
    len=dv_len, min=dv_min, max=dv_max, sum=dv_sum, abs=dv_abs, float=dv_float, int=dv_int, str=dv_str, bool=dv_bool,
    range=dv_range, enumerate=dv_enumerate, zip=dv_zip, sorted=dv_sorted, any=dv_any, all=dv_all, list=dv_list,
    set=dv_set, dict=dv_dict, tuple=dv_tuple, map=dv_map, isinstance=dv_isinstance, type=dv_type, round=dv_round,
    reversed=builtins.reversed, iter=dv_iter, next=dv_next, frozenset=builtins.frozenset, filter=builtins.filter,
    callable=builtins.callable, open=dv_open, contains=dv_contains, is_=lambda a, b: a is b or
    (isinstance(b, _ConvMeta) and unconv(b) is a) or (isinstance(a, _ConvMeta) and unconv(a) is b),
    symbolic_iter=symbolic_iter, comp=comp, probe=probe, for_loop=loops.for_loop, while_loop=loops.while_loop,
    mklist=lambda x: x, mkdict=lambda x: x, mkpairs=mkpairs)


class QuietWarnings(types.ModuleType):
    """warnings.warn has no effect on the result of a call"""

    def __init__(self):
        super().__init__("warnings")
        import warnings as w
        self._w = w

    def warn(self, *a, **k):
        return None

    def __getattr__(self, n):
        return getattr(self._w, n)


def default_shims(np_extra=None, pd_extra=None):
    npm = make_np(np_extra)
    sh = {
        "numpy": npm,
        "warnings": QuietWarnings(),
        "pandas": ModShim(pd, pd_extra or {}),
        "math": ModShim(math, dict(isnan=np_isnan, isinf=np_isinf, sqrt=np_sqrt, fabs=np_abs, log=np_log, ceil=m_ceil, floor=m_floor)),
    }
    st = ModShim(scipy.stats, {})
    sp = ModShim(scipy, {"stats": st})
    sp.__dict__["stats"] = st
    sh["scipy"] = sp
    sh["scipy.stats"] = sp
    return sh

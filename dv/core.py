"""Path-exploring symbolic executor: contexts, obligations, symbolic scalars.

The engine runs the REAL code objects compiled from /repo's current source.
Symbolic inputs are proxy objects around z3 terms; every place where Python
asks a proxy for a concrete truth value becomes a branch, explored exhaustively
by re-execution.  ``Ctx.prove`` is the only place obligations are decided.
"""
from __future__ import annotations

import fractions
import math
import itertools
import operator
import time

from . import tools  # noqa: F401
import z3
import numpy as _np

Z3_TIMEOUT_MS = 4000
BUDGET_S = 240


class EngineStop(BaseException):
    """base of the exceptions the code under test must not swallow"""


class PathKill(EngineStop):
    pass


class Restart(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class Missing(EngineStop):
    """an internal function a function-level harness is about no longer exists; its callers are verified with the
    code inlined, so the harness has nothing to say"""


def need(obj, name):
    f = getattr(obj, name, None)
    if f is None:
        Ctx.cur.stop(Missing(name))
    return f


def has_quantifier(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def index_terms(es):
    """ground terms arrays are read or written at, by sort"""
    out, seen = {}, set()

    def go(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if z3.is_select(x) or z3.is_store(x):
            k = z3.simplify(x.arg(1))
            out.setdefault(k.sort().name(), {})[k.get_id()] = k
        for c in x.children():
            go(c)
    for e in es:
        go(e)
    return {s: list(d.values()) for s, d in out.items()}


def most(terms):
    return max((len(v) for v in terms.values()), default=0)


def abstract_products(e, memo):
    """e with every product of two non-constant terms replaced by a variable (same product, same variable)"""
    e = z3.simplify(e, som=True)
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1:
                num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
                var = sorted((c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))), key=lambda c: c.get_id())
                kk = tuple(c.get_id() for c in var)
                if kk not in memo:
                    memo[kk] = (z3.FreshConst(x.sort(), "prod"), var)
                r = memo[kk][0]
                for c in num:
                    r = c * r
            else:
                r = x.decl()(*ch)
        cache[k] = r
        return r
    return go(e)


class _Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = _Undef()


class Obligation:
    __slots__ = ("name", "status", "reason", "model", "path", "secs", "backend")

    def __init__(self, name, status, reason="", model=None, path=None, secs=0.0,
                 backend="z3"):
        self.name = name
        self.status = status
        self.reason = reason
        self.model = model
        self.path = path
        self.secs = secs
        self.backend = backend


class Ctx:
    cur = None

    def __init__(self, prefix, run):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.run = run
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", Z3_TIMEOUT_MS)
        self.counter = {}
        self.inputs = {}
        self.dead = None
        self.sqrt_defs = {}     # var name -> arg expr
        self.sqrt_cache = {}
        self.notes = []
        self.obs = []
        self.quant = []         # quantified facts
        self.heavy = []         # nonlinear facts, used only when an obligation needs them
        self.nonneg = set()     # ids of atoms known to be >= 0
        self.keep = []
        self.labels = []

    # -- exceptions that survive `except BaseException` in the code under test
    def stop(self, exc):
        if self.dead is None:
            self.dead = exc
        raise exc

    def alive(self):
        if self.dead is not None:
            raise self.dead

    # -- fresh names
    def fresh(self, base, sort):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        name = base if k == 0 else f"{base}!{k}"
        return z3.Const(name, sort)

    def know_nonneg(self, e):
        """register an atom as non-negative (the caller has assumed or proved it)"""
        self.nonneg.add(e.get_id())
        self.keep.append(e)

    def nonneg_atom(self, e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            e = e.arg(0)
        return e.get_id() in self.nonneg

    # -- path condition
    def assume(self, cond):
        self.alive()
        cond = as_bool_expr(cond)
        if has_quantifier(cond):
            self.quant.append(cond)       # used only to discharge obligations, never for path feasibility
            return
        self.pc.append(cond)
        self.solver.add(cond)

    def check_q(self, cond):
        """is the path condition with the quantified facts inconsistent with not cond?  Products of variables are
        abstracted (weaker hypotheses), so only unsat is meaningful"""
        t = time.time()
        neg, goal = z3.Not(cond), cond
        if z3.is_quantifier(cond) and cond.is_forall():
            sk = [z3.FreshConst(cond.var_sort(k), "sk") for k in range(cond.num_vars())]
            goal = z3.substitute_vars(cond.body(), *reversed(sk))
            neg = z3.Not(goal)
        memo = {}
        r = z3.unknown
        patterns = getattr(self, "by_patterns", False)
        if not patterns and not has_quantifier(goal) and all(z3.is_quantifier(q) and q.is_forall() for q in self.quant):
            terms, inst = index_terms([goal] + self.pc), []
            base = [goal] + self.pc
            if most(terms) > 16:
                terms, base = index_terms([goal]), [goal]
            for _ in range(2):
                inst = []
                for q in self.quant:
                    sets = [terms.get(q.var_sort(k).name(), []) for k in range(q.num_vars())]
                    size = 1
                    for x in sets:
                        size *= len(x)
                    if size <= 400:
                        for tup in itertools.product(*sets):
                            inst.append(z3.substitute_vars(q.body(), *reversed(tup)))
                more = index_terms(base + inst)
                if most(more) > 24:
                    break
                terms = more
            sol = z3.Solver()
            sol.set("timeout", Z3_TIMEOUT_MS)
            sol.add(*[abstract_products(e, memo) for e in self.pc + inst + [neg]])
            r = sol.check()
        if r == z3.unknown:
            sol = z3.Solver()
            sol.set("timeout", Z3_TIMEOUT_MS)
            sol.set("auto_config", False)
            sol.set("mbqi", False)
            sol.add(*[abstract_products(e, memo) for e in self.pc + self.quant + [neg]])
            r = sol.check()
        if r != z3.unsat and patterns:
            # the order of instantiations matters: other seeds, then model-based instantiation
            for seed in (1, 2, 3, None):
                sol = z3.Solver()
                sol.set("timeout", Z3_TIMEOUT_MS)
                if seed is not None:
                    sol.set("auto_config", False)
                    sol.set("mbqi", False)
                    sol.set("random_seed", seed)
                sol.add(*self.pc, *self.quant, neg)
                r = sol.check()
                if r == z3.unsat:
                    break
        self.run.solver_time += time.time() - t
        self.run.queries += 1
        return r

    def check(self, *extra):
        t = time.time()
        self.solver.push()
        for c in extra:
            self.solver.add(c)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        self.run.solver_time += time.time() - t
        self.run.queries += 1
        return r, m

    def feasible(self, *extra):
        r, _ = self.check(*extra)
        return r != z3.unsat

    def branch(self, cond, label=None):
        self.alive()
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if not z3.is_true(cond) and not z3.is_false(cond):
            from . import norm
            cond = norm.norm(self, cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            can_t = self.feasible(cond)
            can_f = self.feasible(z3.Not(cond))
            if not can_t and not can_f:
                self.stop(PathKill("path condition unsatisfiable"))
            if can_t and can_f:
                d = True
                self.pending.append(self.trace + [False])
            else:
                d = can_t
        self.trace.append(d)
        self.labels.append((label or str(cond)[:80], d))
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        return d

    def choose(self, options, label):
        """nondeterministic (demonic) choice among concrete alternatives"""
        self.alive()
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(len(options) - 1, 0, -1):
                self.pending.append(self.trace + [k])
        self.trace.append(d)
        self.labels.append((label, repr(options[d])[:60]))
        return options[d]

    # -- obligations
    def _record(self, ob):
        ob.path = list(self.labels)
        self.obs.append(ob)
        self.run.record(ob)
        return ob.status == "proved"

    def prove(self, name, cond, timeout=None):
        self.alive()
        t0 = time.time()
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, (bool, _np.bool_)):
            if cond:
                return self._record(Obligation(name, "proved", "evaluates to True on this path",
                                               backend="eval", secs=time.time() - t0))
            r, m = self.check()
            if r == z3.sat and self.heavy:
                r, m = self.check(*self.heavy)
            if r == z3.unsat or (self.quant and self.check_q(z3.BoolVal(False)) == z3.unsat):
                return self._record(Obligation(name, "proved", "path infeasible"))
            return self._record(Obligation(name, "refuted" if r == z3.sat else "unknown",
                                           "postcondition is False on a feasible path",
                                           self.model_values(m), secs=time.time() - t0))
        if timeout:
            self.solver.set("timeout", timeout)
        from . import norm
        if z3.is_expr(cond) and z3.is_eq(cond) and z3.is_arith(cond.arg(0)) and norm.nonlinear(cond):
            from . import algebra
            ok, why = algebra.equal(self, cond.arg(0), cond.arg(1))
            if ok:
                self.pc.append(cond)
                self.solver.add(cond)
                return self._record(Obligation(name, "proved", why, backend="poly", secs=time.time() - t0))
        ncond = norm.norm(self, z3.simplify(cond)) if z3.is_expr(cond) else cond
        if not ncond.eq(cond):
            r, m = self.check(z3.Not(ncond))
            if r == z3.unsat:
                return self._record(Obligation(name, "proved", secs=time.time() - t0))
        r, m = self.check(z3.Not(cond), *self.heavy)
        if timeout:
            self.solver.set("timeout", Z3_TIMEOUT_MS)
        if r == z3.unsat:
            ok = self._record(Obligation(name, "proved", secs=time.time() - t0))
            self.pc.append(cond)
            self.solver.add(cond)
            return ok
        if self.quant:
            if self.check_q(cond) == z3.unsat:
                ok = self._record(Obligation(name, "proved", secs=time.time() - t0))
                self.assume(cond)
                return ok
            if r == z3.sat:
                return self._record(Obligation(name, "unknown", f"not derivable from the loop invariants: {str(cond)[:400]}",
                                               self.model_values(m), secs=time.time() - t0))
        if r == z3.sat:
            return self._record(Obligation(name, "refuted", f"counter-model for: {str(cond)[:400]}",
                                           self.model_values(m), secs=time.time() - t0))
        # unknown: try algebra on equalities, then cvc5
        if z3.is_eq(cond) and z3.is_arith(cond.arg(0)):
            from . import algebra
            ok, why = algebra.equal(self, cond.arg(0), cond.arg(1))
            if ok:
                return self._record(Obligation(name, "proved", why, backend="poly",
                                               secs=time.time() - t0))
        st, why = cvc5_check(self.pc + self.heavy + [z3.Not(cond)])
        if st == "unsat":
            return self._record(Obligation(name, "proved", why, backend="cvc5",
                                           secs=time.time() - t0))
        return self._record(Obligation(name, "unknown",
                                       f"z3 unknown ({self.solver.reason_unknown()}), cvc5 {st}: {str(cond)[:400]}",
                                       secs=time.time() - t0))

    def prove_eq(self, name, a, b):
        """equality of two (possibly special) numbers; NaN equals NaN here"""
        self.alive()
        t0 = time.time()
        if not is_sym(a) and not is_sym(b):
            same = (a is b) or (isnan(a) and isnan(b)) or bool(a == b)
            return self.prove(name, bool(same))
        if a is None or b is None or (not is_sym(a) and isspecial(a)) or (not is_sym(b) and isspecial(b)):
            return self.prove(name, False)
        ea, eb = num_expr(a), num_expr(b)
        d = z3.simplify(ea - eb, som=True)
        if z3.is_rational_value(d) or z3.is_int_value(d):
            return self.prove(name, z3.is_true(z3.simplify(d == 0)))
        from . import algebra
        ok, why = algebra.equal(self, ea, eb)
        if ok:
            return self._record(Obligation(name, "proved", why, backend="poly",
                                           secs=time.time() - t0))
        if ok is False and why.startswith("nonzero"):
            pt = algebra.witness(self, ea, eb)
            if pt is not None:
                return self._record(Obligation(name, "refuted", "normal form of the difference is not zero: "
                                               + why[:300], pt, backend="poly", secs=time.time() - t0))
        return self.prove(name, ea == eb)

    def model_values(self, m):
        out = {}
        if m is None:
            return out
        for k, v in self.inputs.items():
            try:
                out[k] = concretise(m, v)
            except Exception as e:      # pragma: no cover
                out[k] = f"<{e}>"
        return out


def cvc5_check(assertions, timeout_ms=6000):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(timeout_ms))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = p.getSymbolManager()
        last = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if str(o).strip():
                last = str(o).strip()
        return last or "none", "cvc5"
    except Exception as e:
        return "error", f"cvc5: {e}"


def concretise(m, v):
    if isinstance(v, (SymNum, SymBool)):
        x = m.eval(v.e, model_completion=True)
        return from_z3(x)
    if z3.is_expr(v):
        return from_z3(m.eval(v, model_completion=True))
    if hasattr(v, "_dv_concretise"):
        return v._dv_concretise(m)
    return v


def from_z3(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        f = fractions.Fraction(x.numerator_as_long(), x.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(x):
        return float(x.approx(12).as_fraction())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return str(x)


# --------------------------------------------------------------------------
# symbolic scalars
# --------------------------------------------------------------------------

def isnan(x):
    return isinstance(x, (float, _np.floating)) and math.isnan(x)


def isinf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def isspecial(x):
    return isnan(x) or isinf(x)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    rep_type = object

    def __getattr__(self, n):
        # an attribute the modelled type has but the model lacks: outside reach, never an AttributeError of the code
        c = Ctx.cur
        if c is not None and not n.startswith("_") and hasattr(type(self).rep_type if isinstance(type(self).rep_type, type)
                                                               else self.rep_type, n):
            c.stop(Unsupported(f"attribute {n} of {type(self).__name__}"))
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {n!r}")


def as_bool_expr(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, (bool, _np.bool_)):
        return z3.BoolVal(bool(c))
    if isinstance(c, SymNum):
        return c.e != 0
    return c


class SymBool(Sym):
    __slots__ = ("e",)
    rep_type = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Ctx.cur.branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return SymBool(z3.And(self.e, as_bool_expr(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return SymBool(z3.Or(self.e, as_bool_expr(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool, _np.bool_)):
            return SymBool(self.e == as_bool_expr(o))
        return num(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def _n(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), "int")

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __hash__(self):
        Ctx.cur.stop(Unsupported("hash of symbolic bool"))

    def __repr__(self):
        return f"SymBool({str(self.e)[:60]})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def lit(x):
    """python number -> z3 numeral (floats as exact rationals)"""
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating)):
        f = fractions.Fraction(float(x))
        # decimal literals in the source such as 0.5 or 1e-15 are exact enough as
        # the double they denote; use that double.
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    raise TypeError(type(x))


def num_expr(x):
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x):
        return x
    return lit(x)


def num(e, kind=None, npy=False):
    if kind is None:
        kind = "int" if e.sort() == z3.IntSort() else "float"
    return SymNum(e, kind, npy)


def to_real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _is_num(o):
    return isinstance(o, (int, float, _np.integer, _np.floating, bool, _np.bool_, fractions.Fraction))


class SymNum(Sym):
    """a finite mathematical number; kind in {'int','float'}; npy: numpy scalar"""
    __slots__ = ("e", "kind", "npy")
    __array_ufunc__ = None          # numpy scalars must defer to us
    __array_priority__ = 1e9

    def __init__(self, e, kind="float", npy=False):
        self.e = e
        self.kind = kind
        self.npy = npy

    @property
    def rep_type(self):
        if self.npy:
            return _np.int64 if self.kind == "int" else _np.float64
        return int if self.kind == "int" else float

    # ---- helpers
    def _meta(self, o, force=None):
        ok = o.kind if isinstance(o, SymNum) else ("float" if isinstance(o, (float, _np.floating)) else "int")
        onp = o.npy if isinstance(o, SymNum) else isinstance(o, _np.generic)
        kind = force or ("float" if "float" in (self.kind, ok) else "int")
        return kind, self.npy or onp

    def _bin(self, o, f, special, force=None):
        Ctx.cur.alive()
        if isinstance(o, SymBool):
            o = o._n()
        if isinstance(o, SymNum):
            return SymNum(f(self.e, o.e), *self._meta(o, force))
        if _is_num(o):
            if isspecial(o):
                return special(o)
            return SymNum(f(self.e, lit(o)), *self._meta(o, force))
        if hasattr(o, "_dv_rbin"):
            return NotImplemented
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda s: s)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda s: s)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: -s)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda s: s)

    def __mul__(self, o):
        def sp(s):
            if isnan(s):
                return s
            c = Ctx.cur
            if c.branch(self.e == 0):
                return s * 0
            return s if c.branch(self.e > 0) else -s
        if isinstance(o, list):
            from .bags import rep
            return rep(o, self)
        return self._bin(o, lambda a, b: a * b, sp)

    __rmul__ = __mul__

    def __neg__(self):
        return SymNum(-self.e, self.kind, self.npy)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e), self.kind, self.npy)

    def __truediv__(self, o):
        if isinstance(o, SymBool):
            o = o._n()
        if _is_num(o):
            if isnan(o):
                return o
            if isinf(o):
                return 0.0
            if o == 0:
                return div_zero(self, o, self.npy or isinstance(o, _np.generic))
            return SymNum(to_real(self.e) / lit(o), "float", self.npy or isinstance(o, _np.generic))
        if isinstance(o, SymNum):
            return sdiv(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if _is_num(o):
            if isnan(o):
                return o
            if isinf(o):
                Ctx.cur.stop(Unsupported("inf / symbolic"))
            return sdiv(SymNum(lit(o), "float" if isinstance(o, (float, _np.floating)) else "int",
                               isinstance(o, _np.generic)), self)
        return NotImplemented

    def __floordiv__(self, o):
        return ifloordiv(self, o)

    def __rfloordiv__(self, o):
        return ifloordiv(o, self)

    def __mod__(self, o):
        return imod(self, o)

    def __rmod__(self, o):
        return imod(o, self)

    def __divmod__(self, o):
        return ifloordiv(self, o), imod(self, o)

    def __pow__(self, o):
        if isinstance(o, (int, _np.integer)) and not isinstance(o, bool):
            return ipow(self, int(o))
        if isinstance(o, (float, _np.floating)):
            if float(o).is_integer():
                r = ipow(self, int(o))
                return SymNum(to_real(r.e), "float", self.npy) if isinstance(r, SymNum) else r
            two = float(o) * 2
            if two.is_integer():
                k = int(two)
                r = sqrt(self)
                if not isinstance(r, SymNum):
                    Ctx.cur.stop(Unsupported("half-integer power of special"))
                return ipow(r, k)
        Ctx.cur.stop(Unsupported(f"power {o!r}"))

    def __rpow__(self, o):
        Ctx.cur.stop(Unsupported("symbolic exponent"))

    # ---- comparisons
    def _cmp(self, o, f, nanv, infv):
        Ctx.cur.alive()
        if isinstance(o, SymBool):
            o = o._n()
        if isinstance(o, SymNum):
            return SymBool(f(self.e, o.e))
        if _is_num(o):
            if isnan(o):
                return nanv
            if isinf(o):
                return infv(o > 0)
            return SymBool(f(self.e, lit(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, False, lambda p: p)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, False, lambda p: p)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, lambda p: not p)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, lambda p: not p)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, lambda p: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True, lambda p: True)
        return True if r is NotImplemented else r

    def __bool__(self):
        return Ctx.cur.branch(self.e != 0)

    def __hash__(self):
        return 7

    def __index__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        Ctx.cur.stop(Unsupported("symbolic value used as a concrete index"))

    def __int__(self):
        return self.__index__()

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            return float(from_z3(s))
        Ctx.cur.stop(Unsupported("symbolic value forced to float"))

    def __round__(self, nd=None):
        return sround(self, nd)

    def __repr__(self):
        return f"Sym<{str(self.e)[:60]}>"

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy-scalar surface
    def item(self):
        return SymNum(self.e, self.kind, False)

    def astype(self, t):
        return cast_num(self, t)

    def is_integer(self):
        if self.kind == "int":
            return True
        return SymBool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    def copy(self):
        return self

    def tolist(self):
        return SymNum(self.e, self.kind, False)


def _over_arrays(name):
    f = getattr(SymNum, name)

    def op(self, o):
        if isinstance(o, _np.ndarray):
            r = _np.empty(o.shape, dtype=object)
            for ix in _np.ndindex(o.shape):
                r[ix] = g(o[ix], self) if name.startswith("__r") else g(self, o[ix])
            return r
        return f(self, o)
    g = getattr(operator, name.replace("__r", "__", 1))
    setattr(SymNum, name, op)


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    _over_arrays(_n)


def cast_num(x, t):
    if t in (float, "float", _np.float64, "float64"):
        return SymNum(to_real(x.e), "float", x.npy)
    if t in (int, "int", _np.int64, "int64"):
        if x.kind == "int":
            return x
        return SymNum(trunc(x.e), "int", x.npy)
    Ctx.cur.stop(Unsupported(f"cast to {t}"))


def trunc(e):
    if e.sort() == z3.IntSort():
        return e
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def div_zero(a, o, npy):
    """a / 0 with a symbolic"""
    if not npy:
        raise ZeroDivisionError("division by zero")
    if Ctx.cur.branch(num_expr(a) == 0):
        return _np.float64("nan")
    if Ctx.cur.branch(num_expr(a) > 0):
        return _np.float64("inf")
    return _np.float64("-inf")


def sdiv(a, b):
    c = Ctx.cur
    npy = (a.npy if isinstance(a, SymNum) else isinstance(a, _np.generic)) or b.npy
    if c.branch(b.e == 0, "denominator is zero"):
        return div_zero(a, b, npy)
    return SymNum(to_real(num_expr(a)) / to_real(b.e), "float", npy)


def ipow(x, k):
    if k < 0:
        return 1 / ipow(x, -k)
    if k == 0:
        return SymNum(lit(1), x.kind, x.npy)
    r = x
    for _ in range(k - 1):
        r = r * x
    return r


def ifloordiv(a, b):
    c = Ctx.cur
    ea, eb = num_expr(a), num_expr(b)
    if (isinstance(b, SymNum) and c.branch(eb == 0)) or (not isinstance(b, SymNum) and b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ea.sort() == z3.IntSort() and eb.sort() == z3.IntSort():
        # python floor semantics; z3 div is floor for positive divisor
        if not isinstance(b, SymNum):
            if b > 0:
                return SymNum(ea / eb, "int")
        elif c.branch(eb > 0):
            return SymNum(ea / eb, "int")
        return SymNum((-ea) / (-eb), "int")
    return SymNum(z3.ToReal(z3.ToInt(to_real(ea) / to_real(eb))), "float")


def imod(a, b):
    q = ifloordiv(a, b)
    return a - q * b


def sqrt(x):
    """principal square root; NaN below zero (numpy semantics)"""
    c = Ctx.cur
    if not isinstance(x, SymNum):
        return _np.sqrt(x)
    e = to_real(x.e)
    if c.branch(e < 0, "sqrt of negative"):
        return _np.float64("nan")
    key = z3.simplify(e).sexpr()
    if key in c.sqrt_cache:
        return SymNum(c.sqrt_cache[key], "float", True)
    r = c.fresh("sqrt", z3.RealSort())
    c.sqrt_cache[key] = r
    c.sqrt_defs[r.decl().name()] = e
    from . import norm
    c.assume(r >= 0)
    c.know_nonneg(r)
    z = norm.norm(c, z3.simplify(e == 0))
    c.assume((r == 0) == z)
    c.heavy.append(r * r == e)
    return SymNum(r, "float", True)


def sround(x, nd=None):
    """round half to even, axiomatised: nearest integer (ties unspecified)"""
    c = Ctx.cur
    if nd not in (None, 0):
        c.stop(Unsupported("round to digits"))
    if x.kind == "int":
        return x
    r = c.fresh("round", z3.IntSort())
    rr = z3.ToReal(r)
    h = z3.RealVal("1/2")
    c.assume(z3.And(rr - h <= x.e, x.e <= rr + h))
    # numpy float.__round__() with no digits returns a python int
    _round_bounds(c, x.e, r)
    return SymNum(r, "int", False)


def entails(c, e):
    r, _ = c.check(z3.Not(e))
    return r == z3.unsat


def _round_bounds(c, e, r):
    """proved consequences for r = round(p * q) with 0 <= q <= 1, 0 <= p: 0 <= r, and r <= p for whole p"""
    s = e
    if z3.is_mul(s) and s.num_args() == 2:
        pairs = [(s.arg(0), s.arg(1)), (s.arg(1), s.arg(0))]
    elif z3.is_app(s) and s.decl().kind() == z3.Z3_OP_DIV and z3.is_mul(s.arg(0)) and s.arg(0).num_args() == 2:
        a, b = s.arg(0).arg(0), s.arg(0).arg(1)
        pairs = [(a, b / s.arg(1)), (b, a / s.arg(1))]
    else:
        return
    for p, q in pairs:
        if not (z3.is_app(q) and q.decl().kind() == z3.Z3_OP_DIV):
            continue
        a, d = q.arg(0), q.arg(1)
        if entails(c, z3.And(d > 0, a >= 0, p >= 0)):
            c.assume(r >= 0)
            if entails(c, a <= d) and entails(c, z3.IsInt(p)):
                c.assume(z3.ToReal(r) <= p)
            return


def ite(cond, a, b):
    """If-join of two numbers"""
    if isinstance(cond, bool):
        return a if cond else b
    ea, eb = num_expr(a), num_expr(b)
    if ea.sort() != eb.sort():
        ea, eb = to_real(ea), to_real(eb)
    ka = a.kind if isinstance(a, SymNum) else ("float" if isinstance(a, (float, _np.floating)) else "int")
    kb = b.kind if isinstance(b, SymNum) else ("float" if isinstance(b, (float, _np.floating)) else "int")
    npy = (a.npy if isinstance(a, SymNum) else isinstance(a, _np.generic))
    return SymNum(z3.If(as_bool_expr(cond), ea, eb), "float" if "float" in (ka, kb) else "int", npy)


# --------------------------------------------------------------------------
# input constructors
# --------------------------------------------------------------------------

def real(name, npy=False, inp=True):
    c = Ctx.cur
    v = SymNum(c.fresh(name, z3.RealSort()), "float", npy)
    if inp:
        c.inputs[name] = v
    return v


def integer(name, npy=False, lo=None, as_real=False, inp=True):
    """an int-typed input.  as_real: relax the integer to a real in the logic
    (sound for proving; keeps nonlinear arithmetic in one theory)."""
    c = Ctx.cur
    v = SymNum(c.fresh(name, z3.RealSort() if as_real else z3.IntSort()), "int", npy)
    if lo is not None:
        c.assume(v.e >= lo)
    if inp:
        c.inputs[name] = v
    return v


def boolean(name):
    c = Ctx.cur
    v = SymBool(c.fresh(name, z3.BoolSort()))
    c.inputs[name] = v
    return v


class SymStr(SymNum):
    """an element of an arbitrary totally ordered set standing for a string /
    date: only comparisons are available"""
    __slots__ = ()

    @property
    def rep_type(self):
        return str

    def _bin(self, o, f, special, force=None):
        Ctx.cur.stop(Unsupported("operation on an abstract string"))

    def _cmp(self, o, f, nanv, infv):
        if isinstance(o, SymStr):
            return SymBool(f(self.e, o.e))
        if isinstance(o, str):
            Ctx.cur.stop(Unsupported("abstract string compared with a literal"))
        return NotImplemented

    def __bool__(self):
        Ctx.cur.stop(Unsupported("truth of abstract string"))


def ordered(name):
    c = Ctx.cur
    v = SymStr(c.fresh(name, z3.RealSort()), "float")
    c.inputs[name] = v
    return v


# --------------------------------------------------------------------------
# exploration driver
# --------------------------------------------------------------------------

class Run:
    """collects the results of all harnesses of one property"""

    def __init__(self):
        self.obligations = []
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.killed = 0
        self.harness = None
        self.functions = {}
        self.unsupported = []
        self.missing = []
        self.errors = []
        self.covers = {}
        self.restarts = 0
        self.completed = 0

    def record(self, ob):
        self._cur.append(ob)

    def invariants(self):
        """surviving loop invariants per loop"""
        out = {}
        for (h, site), inf in self.__dict__.get("loops", {}).items():
            out[site] = sorted(x for x in inf.seen if x not in inf.dropped)
        return out

    def cover(self, name):
        """reachability mark: must be hit by a feasible path"""
        c = Ctx.cur
        if not self.covers.get((self.harness, name)):
            r, _ = c.check()
            if r == z3.sat or r == z3.unknown:
                self.covers[(self.harness, name)] = (r == z3.sat) or "unknown"

    def explore(self, name, fn, max_paths=4000, budget_s=None):
        budget_s = budget_s or BUDGET_S
        self.harness = name
        t0 = time.time()
        while True:
            self._cur = []
            stack = [[]]
            n = 0
            restart = False
            t_fail = None
            while stack:
                prefix = stack.pop()
                n += 1
                if self.errors or self.unsupported or any(o.status != "proved" for o in self._cur):
                    t_fail = t_fail or time.time()
                    if time.time() - t_fail > 20:      # already failed: a few more paths for the report are enough
                        break
                if n > max_paths or time.time() - t0 > budget_s:
                    self.unsupported.append((name, f"path budget exhausted ({n} paths, {time.time()-t0:.0f}s)"))
                    stack = []
                    break
                ctx = Ctx(prefix, self)
                Ctx.cur = ctx
                try:
                    fn(ctx)
                    ctx.alive()
                    if not self.completed:
                        r, _ = ctx.check()
                        if r == z3.sat:
                            self.completed += 1
                except PathKill:
                    self.killed += 1
                except Restart:
                    restart = True
                    break
                except Missing as e:
                    self.missing.append(str(e))
                    stack = []
                    break
                except Unsupported as e:
                    self.unsupported.append((name, str(e)))
                except Exception as e:   # unexpected exception out of code under test
                    if ctx.dead is not None and isinstance(ctx.dead, EngineStop):
                        if isinstance(ctx.dead, Restart):
                            restart = True
                            break
                        if isinstance(ctx.dead, Unsupported):
                            self.unsupported.append((name, str(ctx.dead)))
                    else:
                        import traceback
                        r, m = ctx.check()
                        if r != z3.unsat:
                            self.errors.append((name, "".join(traceback.format_exception(e))[-1800:],
                                                ctx.model_values(m), list(ctx.labels)))
                finally:
                    Ctx.cur = None
                stack.extend(ctx.pending)
            if restart:
                self.restarts += 1
                if self.restarts > 400:
                    self.unsupported.append((name, "too many invariant-inference rounds"))
                    break
                continue
            break
        self.paths += n
        self.obligations.extend((name, ob) for ob in self._cur)
        return n

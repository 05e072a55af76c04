"""Decision procedure for equalities of rational expressions with square roots.

Normal form: a quotient of polynomials with rational coefficients over the
atoms (free variables and uninterpreted terms) of the two sides.  A square-root
symbol r = sqrt(e) is replaced by f1^(k1//2) * ... * R_f^(k mod 2) after
factoring e = c * f1^k1 * ...; the odd factors keep one atom R_f with
R_f^2 = f.  Each factor is required to be non-negative under the path condition
(checked with z3), so the rewriting is an identity of real numbers.
"""
from __future__ import annotations

import fractions
import random

from . import tools  # noqa: F401
import z3
import sympy
from sympy import Rational, Symbol


class Fail(Exception):
    pass


def _conv(e, env, ctx):
    if z3.is_int_value(e):
        return sympy.Integer(e.as_long())
    if z3.is_rational_value(e):
        return Rational(e.numerator_as_long(), e.denominator_as_long())
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return sympy.Add(*[_conv(c, env, ctx) for c in ch])
    if k == z3.Z3_OP_SUB:
        r = _conv(ch[0], env, ctx)
        for c in ch[1:]:
            r = r - _conv(c, env, ctx)
        return r
    if k == z3.Z3_OP_MUL:
        return sympy.Mul(*[_conv(c, env, ctx) for c in ch])
    if k == z3.Z3_OP_DIV:
        return _conv(ch[0], env, ctx) / _conv(ch[1], env, ctx)
    if k == z3.Z3_OP_UMINUS:
        return -_conv(ch[0], env, ctx)
    if k == z3.Z3_OP_TO_REAL:
        return _conv(ch[0], env, ctx)
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
        return _conv(ch[0], env, ctx) ** ch[1].as_long()
    if k == z3.Z3_OP_ITE:
        # decided by the path condition?
        if not ctx.feasible(z3.Not(ch[0])):
            return _conv(ch[1], env, ctx)
        if not ctx.feasible(ch[0]):
            return _conv(ch[2], env, ctx)
        raise Fail("undecided if-then-else")
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = e.decl().name() if not ch else e.sexpr()
        if nm in ctx.sqrt_defs and not ch:
            if nm not in env["sq"]:
                env["sq"][nm] = _sqrt(_conv(ctx.sqrt_defs[nm], env, ctx), env, ctx)
            return env["sq"][nm]
        if nm not in env["atoms"]:
            env["atoms"][nm] = (Symbol(f"a{len(env['atoms'])}"), e)
        return env["atoms"][nm][0]
    raise Fail(f"operator {e.decl().name()}")


def _to_z3(p, env):
    """sympy polynomial expression back to z3 (for sign checks)"""
    back = {s: ex for s, ex in env["atoms"].values()}
    back.update(env["roots_z3"])

    def go(t):
        if t.is_Integer:
            return z3.RealVal(int(t))
        if t.is_Rational:
            return z3.RealVal(f"{t.p}/{t.q}")
        if t.is_Symbol:
            if t not in back:
                raise Fail(f"cannot map back {t}")
            ex = back[t]
            return z3.ToReal(ex) if ex.sort() == z3.IntSort() else ex
        if t.is_Add:
            return z3.Sum([go(a) for a in t.args])
        if t.is_Mul:
            return z3.Product([go(a) for a in t.args])
        if t.is_Pow and t.exp.is_Integer:
            if t.exp > 0:
                return z3.Product([go(t.base)] * int(t.exp))
            return 1 / z3.Product([go(t.base)] * int(-t.exp))
        raise Fail(f"cannot map back {t}")
    return go(sympy.sympify(p))


def _nonneg(p, env, ctx):
    from . import norm
    if norm.monosign(ctx, p, {"atoms": env["atoms"]}) == 1:
        return True
    ex = _to_z3(p, env)
    r, _ = ctx.check(ex < 0)
    return r == z3.unsat


def _squares(p, env):
    """R^2 -> f in a polynomial"""
    p = sympy.expand(p)
    for f, s in list(env["roots"].items())[::-1]:
        if s in p.free_symbols:
            p = sympy.expand(sum(c * f ** (k // 2) * s ** (k % 2) for (k,), c in sympy.Poly(p, s).terms()))
    return p


def _sqrt(e, env, ctx):
    e = sympy.cancel(sympy.together(e))
    nume, deno = sympy.fraction(e)
    if env["roots"]:
        nume, deno = sympy.fraction(sympy.cancel(_squares(nume, env) / _squares(deno, env)))
    out = sympy.Integer(1)
    odd_num = []
    for poly, sgn in ((nume, 1), (deno, -1)):
        c, facs = sympy.factor_list(sympy.expand(poly))
        if c < 0:
            # push the sign into one odd factor
            for i, (f, k) in enumerate(facs):
                if k % 2:
                    facs[i] = (-f, k)
                    c = -c
                    break
            else:
                raise Fail("negative under root")
        if c != 1:
            facs = [(sympy.Rational(c), 1)] + list(facs)
        for f, k in facs:
            f = sympy.sympify(f)
            if k % 2 == 0 and k >= 2 and f.is_Symbol is False and not f.is_number:
                if not _nonneg(f, env, ctx):
                    if _nonneg(-f, env, ctx):
                        f = -f
                    else:
                        raise Fail(f"sign of {f} unknown under root")
            elif not f.is_number:
                if not _nonneg(f, env, ctx):
                    if k % 2 == 0 and _nonneg(-f, env, ctx):
                        f = -f
                    else:
                        raise Fail(f"sign of {f} unknown under root")
            out = out * f ** (sgn * (k // 2))
            if k % 2:
                odd_num.append((f, sgn))
    for f, sgn in odd_num:
        if f.is_number:
            q = sympy.Rational(f)
            rp, rq = sympy.sqrt(q.p), sympy.sqrt(q.q)
            if rp.is_Integer and rq.is_Integer:
                out = out * (rp / rq) ** sgn
                continue
        key = sympy.expand(f)
        if key not in env["roots"]:
            s = Symbol(f"R{len(env['roots'])}")
            env["roots"][key] = s
        out = out * env["roots"][key] ** sgn
    return out


def normal_difference(ctx, a, b):
    env = {"atoms": {}, "sq": {}, "roots": {}, "roots_z3": {}}
    d = _conv(a, env, ctx) - _conv(b, env, ctx)
    n, den = sympy.fraction(sympy.together(d))
    n = sympy.expand(n)
    # reduce R^2 -> f
    for f, s in list(env["roots"].items())[::-1]:
        p = sympy.Poly(n, s)
        acc = sympy.Integer(0)
        for (k,), c in p.terms():
            acc += c * f ** (k // 2) * s ** (k % 2)
        n = sympy.expand(acc)
        nn, _ = sympy.fraction(sympy.together(n))
        n = sympy.expand(nn)
    return n, env


def equal(ctx, a, b):
    try:
        n, env = normal_difference(ctx, a, b)
    except Fail as e:
        return None, f"not algebraic: {e}"
    if n == 0:
        return True, "polynomial normal form of the difference is 0"
    # use equalities of the path condition that fix a variable to a constant/term
    try:
        subs = {}
        for c in ctx.pc:
            if z3.is_eq(c) and z3.is_arith(c.arg(0)):
                l, r = c.arg(0), c.arg(1)
                for x, y in ((l, r), (r, l)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                            and x.decl().name() in env["atoms"] and x.decl().name() not in ctx.sqrt_defs:
                        s = env["atoms"][x.decl().name()][0]
                        v = _conv(y, env, ctx)
                        if s not in v.free_symbols and s not in subs:
                            subs[s] = v
                            break
        if subs:
            for _ in range(3):
                n = sympy.fraction(sympy.together(sympy.expand(n).subs(subs)))[0]
            n = sympy.expand(n)
            if n == 0:
                return True, "polynomial normal form is 0 after substituting path equalities"
    except Fail:
        pass
    if not env["roots"] and _modulo(ctx, n, env):
        return True, "polynomial normal form is 0 modulo the equalities of the path condition"
    return False, f"nonzero normal form: {str(n)[:200]}"


def _modulo(ctx, n, env):
    """is n = 0 after eliminating atoms with path equalities that are linear in them?"""
    hyps = []
    for c in ctx.pc:
        if z3.is_eq(c) and z3.is_arith(c.arg(0)):
            try:
                e2 = dict(env, roots={}, roots_z3={})
                h = sympy.expand(sympy.fraction(sympy.together(_conv(c.arg(0), e2, ctx) - _conv(c.arg(1), e2, ctx)))[0])
            except Fail:
                continue
            if not e2["roots"] and h != 0 and h.free_symbols & n.free_symbols:
                hyps.append(h)
    for h in hyps[:8]:
        for s in sorted(h.free_symbols & n.free_symbols, key=str):
            p = sympy.Poly(h, s)
            if p.degree() != 1:
                continue
            co = p.coeff_monomial(s)
            q = sympy.expand(sympy.fraction(sympy.together(n.subs(s, -p.coeff_monomial(1) / co)))[0])
            if q == 0:
                try:
                    if co.is_number or ctx.check(_to_z3(co, env) == 0)[0] == z3.unsat:
                        return True
                except Fail:
                    continue
    return False


def witness(ctx, a, b, tries=3):
    """a model of the path condition on which the two sides differ"""
    r, m = ctx.check(a != b)
    if r == z3.sat:
        return ctx.model_values(m)
    rnd = random.Random(1)
    vs = [v.e for v in ctx.inputs.values() if hasattr(v, "e") and z3.is_arith(v.e)]
    for _ in range(tries):
        extra = []
        for v in vs:
            q = fractions.Fraction(rnd.randint(1, 9), rnd.choice([1, 2]))
            extra.append(v == z3.RealVal(f"{q.numerator}/{q.denominator}") if v.sort() == z3.RealSort() else v == int(q))
        r, m = ctx.check(*extra)
        if r == z3.sat:
            va, vb = m.eval(a, True), m.eval(b, True)
            if not z3.is_true(z3.simplify(va == vb)):
                return ctx.model_values(m)
    return None


def simplify(ctx, e):
    """an equal expression in cancelled normal form (identity of rational functions)"""
    env = {"atoms": {}, "sq": {}, "roots": {}, "roots_z3": {}}
    try:
        d = _conv(e, env, ctx)
        if env["roots"]:
            return e
        return _to_z3(sympy.cancel(sympy.together(d)), env)
    except Fail:
        return e

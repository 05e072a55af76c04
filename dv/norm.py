"""Rewriting of nonlinear comparisons into (mostly) linear ones.

e OP 0 with e a rational function: numerator and denominator are factored;
the sign of a factor is read off its monomials (every coefficient of one sign,
every odd power over an atom known to be non-negative) or asked of z3 when the
factor is linear.  A sum of non-negative monomials is zero iff every monomial
is; a monomial is zero iff one of its atoms is.  All steps are equivalences
under the path condition.
"""
from __future__ import annotations

from . import tools  # noqa: F401
import z3
import sympy

from .algebra import Fail, _conv, _to_z3


def nonlinear(e):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(not _const(c) for c in x.children()) > 1:
                    return True
            elif k == z3.Z3_OP_DIV:
                if not _const(x.arg(1)):
                    return True
            elif k == z3.Z3_OP_POWER:
                return True
            stack.extend(x.children())
    return False


def _const(x):
    if z3.is_rational_value(x) or z3.is_int_value(x):
        return True
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
        return _const(x.arg(0))
    return False


CMP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}


def norm(ctx, cond):
    """equivalent condition"""
    if not nonlinear(cond):
        return cond
    key = cond.get_id()
    cache = ctx.__dict__.setdefault("norm_cache", {})
    if key in cache:
        return cache[key][1]
    r = _norm(ctx, cond)
    cache[key] = (cond, r)
    return r


def _norm(ctx, c):
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        return z3.simplify(z3.Not(norm(ctx, c.arg(0))))
    if k == z3.Z3_OP_AND:
        return z3.simplify(z3.And(*[norm(ctx, x) for x in c.children()]))
    if k == z3.Z3_OP_OR:
        return z3.simplify(z3.Or(*[norm(ctx, x) for x in c.children()]))
    if k in CMP and z3.is_arith(c.arg(0)):
        try:
            return z3.simplify(_cmp(ctx, c.arg(0) - c.arg(1), CMP[k], c))
        except Fail:
            return c
    return c


class Env(dict):
    pass


def _cmp(ctx, e, op, orig):
    env = {"atoms": {}, "sq": {}, "roots": {}, "roots_z3": {}}
    # square roots stay atoms here (their sign is known)
    saved = ctx.sqrt_defs
    ctx.sqrt_defs = {}
    try:
        d = _conv(e, env, ctx)
    finally:
        ctx.sqrt_defs = saved
    num, den = sympy.fraction(sympy.cancel(sympy.together(d)))
    if den != 1:
        s = sign(ctx, den, env)
        if s is None:
            return orig
        # denominators are non-zero on the path (the division forked on zero)
        if s < 0:
            num = -num
    if num.is_number:
        v = sympy.Rational(num)
        return z3.BoolVal({"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0}[op] == True)  # noqa: E712
    if op == "==":
        return zero(ctx, num, env)
    s = sign(ctx, num, env)
    if s is not None:
        if s > 0:
            return {"<": z3.BoolVal(False), ">=": z3.BoolVal(True)}.get(op) if op in ("<", ">=") else (
                zero(ctx, num, env) if op == "<=" else z3.Not(zero(ctx, num, env)))
        return {">": z3.BoolVal(False), "<=": z3.BoolVal(True)}.get(op) if op in (">", "<=") else (
            zero(ctx, num, env) if op == ">=" else z3.Not(zero(ctx, num, env)))
    # divide out factors of known sign (squares, non-negative atoms): f*g < 0 with
    # f >= 0  <=>  f != 0 and g < 0
    c, facs = sympy.factor_list(num)
    rest = sympy.Integer(1) if c > 0 else sympy.Integer(-1)
    nz = []
    flip = 1
    for f, k in facs:
        sf = 1 if k % 2 == 0 else fsign(ctx, f, env)
        if sf is None:
            rest = rest * f ** (k % 2 or 2) if k % 2 else rest
        else:
            flip *= sf
            nz.append(f)
    rest = rest * flip
    g = _to_z3(sympy.expand(rest), env)
    strict = {"<": g < 0, ">": g > 0, "<=": g <= 0, ">=": g >= 0}[op]
    zs = [zero(ctx, f, env) for f in nz]
    if op in ("<", ">"):
        return z3.And(strict, *[z3.Not(x) for x in zs])
    return z3.Or(strict, *zs)


def monosign(ctx, p, env):
    """+1 if all monomials are non-negative, -1 if all non-positive"""
    p = sympy.expand(p)
    back = {s: ex for s, ex in env["atoms"].values()}
    syms = sorted(p.free_symbols, key=str)
    if not syms:
        return 1 if p >= 0 else -1
    P = sympy.Poly(p, *syms)
    want = None
    for mon, co in P.terms():
        for s, k in zip(syms, mon):
            if k % 2 and (s not in back or not ctx.nonneg_atom(back[s])):
                return None
        sg = 1 if co > 0 else -1
        if want is None:
            want = sg
        elif want != sg:
            return None
    return want


def fsign(ctx, f, env):
    s = monosign(ctx, f, env)
    if s is not None:
        return s
    ex = _to_z3(f, env)
    if not nonlinear(ex):
        r, _ = ctx.check(ex < 0)
        if r == z3.unsat:
            return 1
        r, _ = ctx.check(ex > 0)
        if r == z3.unsat:
            return -1
    return None


def sign(ctx, p, env):
    s = monosign(ctx, p, env)
    if s is not None:
        return s
    c, facs = sympy.factor_list(sympy.expand(p))
    out = 1 if c > 0 else -1
    for f, k in facs:
        if k % 2 == 0:
            continue
        s = fsign(ctx, f, env)
        if s is None:
            return None
        out *= s
    return out


def zero(ctx, p, env):
    c, facs = sympy.factor_list(sympy.expand(p))
    if c == 0:
        return z3.BoolVal(True)
    alts = []
    back = {s: ex for s, ex in env["atoms"].values()}
    for f, _ in facs:
        if monosign(ctx, f, env) is not None:
            syms = sorted(f.free_symbols, key=str)
            conj = []
            for mon, co in sympy.Poly(f, *syms).terms():
                conj.append(z3.Or(*[back[s] == 0 for s, k in zip(syms, mon) if k]) if any(mon) else z3.BoolVal(False))
            alts.append(z3.And(*conj))
        else:
            alts.append(_to_z3(f, env) == 0)
    return z3.Or(*alts) if alts else z3.BoolVal(False)

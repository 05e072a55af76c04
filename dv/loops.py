"""Cut-point treatment of loops over symbolic iteration spaces.

Loop variables are the locals assigned in the body plus every heap slot
(attribute, dict entry, tracked container) observed to change during the body:
a change of a slot that was not havocked restarts the exploration with that
slot added, so the frame of the loop is checked, not assumed.

Invariants: candidates (generic templates over numeric loop variables plus the
templates a specification registers) are all assumed and all checked, on entry
and on the back edge; a candidate that fails is dropped and the exploration
restarted (Houdini).  What survives is inductive.
"""
from __future__ import annotations

import z3
import numpy as np

from .core import (Ctx, PathKill, Restart, Unsupported, SymBool, SymNum, SymStr, UNDEF,
                   as_bool_expr, has_quantifier, is_sym, isspecial, num_expr)
from . import heap


class LoopInfo:
    def __init__(self):
        self.dropped = set()
        self.slots = []       # heap slot paths havocked
        self.kinds = {}       # var -> forced kind
        self.force = False
        self.opaque = set()
        self.enums = {}       # var -> the constants it takes
        self.seen = set()


def info(site):
    reg = Ctx.cur.run.__dict__.setdefault("loops", {})
    return reg.setdefault((Ctx.cur.run.harness, site), LoopInfo())


class SymIter:
    """symbolic finite sequence: length and element access"""

    def __init__(self, length, at, src=None):
        self.length = length
        self.at = at
        self.src = src


class Loop:
    def __init__(self, site):
        self.site = site
        self.ctx = Ctx.cur
        self.info = info(site)
        self.sym = False
        self.it = None
        self.seq = None
        self.i = None
        self.iters = 0

    # ---- for
    def setup_for(self, it):
        if hasattr(it, "_dv_iter"):
            self.seq = it._dv_iter()
            self.sym = True
        else:
            self.it = it
        return self

    # ---- while
    def mark(self):
        self.m = len(self.ctx.trace)
        self.iters += 1
        if self.iters == 1:
            self.m0 = self.m

    def grew(self):
        if len(self.ctx.trace) > self.m or self.info.force:
            return True
        if (self.iters > 8 and len(self.ctx.trace) - self.m0 >= self.iters) or (self.iters > 40 and len(self.ctx.trace) > self.m0):
            self.info.force = True
            self.ctx.stop(Restart())
        if self.iters > 5000:
            self.ctx.stop(Unsupported(f"{self.site}: concrete loop too long"))
        return False

    # ---- cut
    def enter(self, vars, locs):
        ctx = self.ctx
        self.entry = dict(vars)
        self.heap0 = heap.snapshot(locs)
        self.locs0 = {k: v for k, v in locs.items() if not k.startswith("__dv")}
        self.slot_entry = {}
        for p in self.info.slots:
            if p in self.heap0.paths:
                v = self.heap0.get(p)
                self.slot_entry[p] = v._dv_freeze() if hasattr(v, "_dv_freeze") else v
        if self.seq is not None:
            ctx.assume(num_expr(self.seq.length) >= 0)
        self.state_i = SymNum(z3.IntVal(0), "int") if self.seq is not None else None
        fails = []
        for nm, e in self.candidates(self.entry, self.slot_entry, self.state_i):
            if nm in self.info.dropped:
                continue
            if not self.holds(e):
                fails.append(nm)
        self.drop(fails)

    def holds(self, e):
        e = as_bool_expr(e)
        if z3.is_true(z3.simplify(e)):
            return True
        if has_quantifier(e):
            return self.ctx.check_q(e) == z3.unsat
        from . import norm
        r = z3.unknown
        hard = z3.is_eq(e) and z3.is_arith(e.arg(0)) and norm.nonlinear(e)
        if not hard:
            r, _ = self.ctx.check(z3.Not(e))
        if r == z3.unknown and z3.is_eq(e) and z3.is_arith(e.arg(0)):
            from . import algebra
            if algebra.equal(self.ctx, e.arg(0), e.arg(1))[0]:
                return True
            if hard:
                r, _ = self.ctx.check(z3.Not(e))
        if r != z3.unsat and self.ctx.quant:
            return self.ctx.check_q(e) == z3.unsat
        return r == z3.unsat

    def drop(self, names):
        if names:
            self.info.dropped.update(names)
            self.ctx.stop(Restart())

    def fresh_like(self, v, name):
        if v is UNDEF:
            return UNDEF
        vals = self.info.enums.get(name)
        if vals:
            # one of finitely many constants: one path for each
            for k in vals[:-1]:
                if self.ctx.branch(self.ctx.fresh(f"{name} is {k!r}", z3.BoolSort()), f"{name} is {k!r}"):
                    return k
            return vals[-1]
        k = self.info.kinds.get(name)
        base = f"{self.site.split(':')[1]}.{name}"
        if isinstance(v, SymBool) or isinstance(v, (bool, np.bool_)):
            if k in ("int", "float"):
                return self._num(base, k, False)
            return SymBool(self.ctx.fresh(base, z3.BoolSort()))
        if isinstance(v, SymStr):
            return SymStr(self.ctx.fresh(base, z3.RealSort()), "float")
        if isinstance(v, SymNum):
            return self._num(base, k or v.kind, v.npy, v.e.sort())
        if isinstance(v, (int, np.integer)):
            return self._num(base, k or "int", isinstance(v, np.generic))
        if isinstance(v, (float, np.floating)):
            if isspecial(v) and k is None:
                return v
            return self._num(base, "float", isinstance(v, np.generic))
        if hasattr(v, "_dv_fresh"):
            return v._dv_fresh(base)
        return v          # opaque: must be unchanged at the back edge

    def _num(self, base, kind, npy, sort=None):
        if kind == "float":
            sort = z3.RealSort()
        return SymNum(self.ctx.fresh(base, sort if sort is not None else z3.IntSort()), kind, npy)

    def havoc(self):
        ctx = self.ctx
        out = []
        self.cur = {}
        for n, v in self.entry.items():
            f = self.fresh_like(v, n)
            self.cur[n] = f
            out.append(f)
        self.slot_cur = {}
        for p, v in self.slot_entry.items():
            f = heap.havoc_slot(self, p, v)
            self.slot_cur[p] = f
        if self.seq is not None:
            self.i = SymNum(ctx.fresh(self.site.split(":")[1] + ".i", z3.IntSort()), "int")
            ctx.assume(z3.And(self.i.e >= 0, self.i.e <= num_expr(self.seq.length)))
        for nm, e in self.candidates(self.cur, self.slot_cur, self.i):
            if nm not in self.info.dropped:
                ctx.assume(as_bool_expr(e))
        self.heap1 = heap.resnapshot(self.heap0)
        return tuple(out)

    def more(self):
        return self.ctx.branch(self.i.e < num_expr(self.seq.length), f"{self.site} iterates")

    def next(self):
        return self.seq.at(self.i)

    def back(self, vars, locs):
        ctx = self.ctx
        ctx.alive()
        # 1. kinds
        for n, v in vars.items():
            e = self.entry[n]
            if e is UNDEF:
                continue
            c = self.cur[n]
            if isinstance(c, (SymNum, SymBool)) and not isinstance(c, SymStr):
                if isinstance(v, (int, float, np.number, SymNum, bool, SymBool, np.bool_)) and not isspecial(v):
                    isb = isinstance(v, (bool, SymBool, np.bool_))
                    if isinstance(c, SymBool) and not isb:
                        self.info.kinds[n] = "float"
                        ctx.stop(Restart())
                    kv = v.kind if isinstance(v, SymNum) else ("float" if isinstance(v, (float, np.floating)) else "int")
                    if isinstance(c, SymNum) and c.kind == "int" and kv == "float":
                        self.info.kinds[n] = "float"
                        ctx.stop(Restart())
                    continue
                ctx.stop(Unsupported(f"{self.site}: loop variable {n} changes type to {type(v).__name__}"))
            if isinstance(c, SymStr) and isinstance(v, SymStr):
                continue
            if hasattr(c, "_dv_fresh"):
                if type(v) is type(c):
                    continue
                ctx.stop(Unsupported(f"{self.site}: loop variable {n} changes shape"))
            if _const(v) and _const(c) and v is not UNDEF and n in self.entry:
                if v is c or (type(v) is type(c) and v == c):
                    continue
                vals = self.info.enums.setdefault(n, [e])
                if any(x is v or (type(x) is type(v) and x == v) for x in vals):
                    continue
                if len(vals) < 8:
                    vals.append(v)
                    ctx.stop(Restart())
            if v is not c and not heap.same_opaque(v, c):
                ctx.stop(Unsupported(f"{self.site}: loop variable {n} ({type(c).__name__}) changes"))
        # 2. frame
        new = heap.changed(self.heap1)
        add = [p for p in new if p not in self.info.slots]
        if add:
            self.info.slots.extend(add)
            ctx.stop(Restart())
        # 3. invariants
        slots = {p: heap.read(self.heap0, p) for p in self.slot_entry}
        nxt = None
        if self.seq is not None:
            nxt = SymNum(self.i.e + 1, "int")
        fails = []
        for nm, e in self.candidates(vars, slots, nxt):
            if nm in self.info.dropped:
                continue
            if not self.holds(e):
                fails.append(nm)
        self.drop(fails)
        ctx.stop(PathKill("back edge"))

    # ---- candidates
    def candidates(self, vars, slots, i):
        out = []
        allv = {**vars, **slots}
        ent = {**self.entry, **self.slot_entry}
        for n, v in allv.items():
            e = ent.get(n)
            if v is UNDEF or e is UNDEF or e is None:
                continue
            if isinstance(v, SymStr) or not _numlike(v) or not _numlike(e):
                if hasattr(v, "_dv_candidates"):
                    for nm, c in v._dv_candidates(e, i, self):
                        out.append((f"{n}:{nm}", c))
                continue
            ve, ee = num_expr(v), num_expr(e)
            out.append((f"{n}>=entry", ve >= ee))
            out.append((f"{n}<=entry", ve <= ee))
            out.append((f"{n}>=0", ve >= 0))
            if i is not None:
                out.append((f"{n}==entry+i", ve == ee + i.e))
        # bounds against loop-invariant integers and lengths in scope
        scope = []
        for n, v in self.locs0.items():
            if n in self.entry or n.startswith("__"):
                continue
            if isinstance(v, SymNum) and not isinstance(v, SymStr) and v.e.sort() == z3.IntSort():
                scope.append((n, v.e))
            elif hasattr(v, "_at") and hasattr(v, "n") and z3.is_expr(v.n) and v.n.sort() == z3.IntSort():
                scope.append((f"len({n})", v.n))
        for n, v in allv.items():
            if v is UNDEF or ent.get(n) is UNDEF or ent.get(n) is None or not _numlike(v) or isinstance(v, SymStr):
                continue
            ve = num_expr(v)
            if ve.sort() != z3.IntSort():
                continue
            for w, we in scope:
                out.append((f"{n}<{w}", ve < we))
                out.append((f"{n}<={w}", ve <= we))
        specs = self.ctx.run.__dict__.get("loop_specs", [])
        for f in specs:
            got = f(self, vars, slots, i)
            if got:
                out.extend(got)
        out = [(nm, e) for nm, e in out if e is not None]
        self.info.seen.update(nm for nm, _ in out)
        return out


def _const(v):
    return v is None or isinstance(v, str)


def _numlike(v):
    return isinstance(v, (SymNum, int, float, np.number)) and not isinstance(v, (bool, SymBool, np.bool_)) \
        and not isspecial(v)


def for_loop(site, it):
    return Loop(site).setup_for(it)


def while_loop(site):
    return Loop(site)

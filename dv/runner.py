"""Runs the obligations and the runtime contracts of one property and reports."""
from __future__ import annotations

import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
sys.path.insert(0, REPO)
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
NPROC = min(8, os.cpu_count() or 8)


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


# ------------------------------------------------------------------ deductive
def _trace_functions(seen):
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "dv")
    except ValueError:
        pass
    root = os.path.join(REPO, "dataprofiler")

    def start(code, off):
        if code.co_filename.startswith(root) and not code.co_name.startswith("<"):
            seen.add((os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    mon.restart_events()


def prove_worker(pid, name, out):
    import gc
    gc.disable()        # collections at arbitrary moments renumber z3 terms: the same obligations must meet the same solver run
    t0 = time.time()
    res = {"harness": name}
    try:
        from dv import core, shims
        from dv.core import Run
        mod = importlib.import_module(f"specs.{pid.lower()}")
        fn, opts = mod.PROOFS[name]
        seen = set()
        _trace_functions(seen)
        run = Run()
        run.loop_specs = list(opts.get("loop_specs", ()))
        n = run.explore(name, fn, max_paths=opts.get("max_paths", 20000), budget_s=opts.get("budget_s", 330))
        sys.monitoring.set_events(4, 0)
        obs = [(o.name, o.status, o.reason, jsonable(o.model), [list(map(str, p)) for p in (o.path or [])][-40:],
                o.backend, o.secs) for _, o in run.obligations]
        res.update(paths=n, obligations=obs, unsupported=[u[1] for u in run.unsupported],
                   errors=[(e[1], jsonable(e[2]), [list(map(str, p)) for p in e[3]][-40:]) for e in run.errors],
                   covers=[k[1] for k, v in run.covers.items() if v], completed=run.completed,
                   solver_time=run.solver_time, queries=run.queries, functions=sorted(seen),
                   used=dict(shims.USED), missing=sorted(set(run.missing)), restarts=run.restarts, invariants=run.invariants(),
                   must=list(opts.get("covers", ())))
    except BaseException as e:
        res.update(crash="".join(traceback.format_exception(e))[-3000:])
    res["secs"] = time.time() - t0
    try:
        s = json.dumps(res)
    except Exception as e:
        s = json.dumps({"harness": name, "crash": f"result not serialisable: {e}", "secs": time.time() - t0})
    with open(out, "w") as f:
        f.write(s)


def run_procs(jobs, deadline, tag, each=10 ** 9):
    """jobs: list of (key, target, args); runs NPROC at a time, each for a limited time; returns {key: exit info}"""
    ctx = mp.get_context("fork")
    pending = list(jobs)[::-1]
    live = {}
    done = {}
    born = {}
    while pending or live:
        while pending and len(live) < NPROC:
            key, target, args = pending.pop()
            p = ctx.Process(target=target, args=args)
            p.start()
            live[key], born[key] = p, time.time()
        time.sleep(0.03)
        for k, p in list(live.items()):
            if not p.is_alive():
                p.join()
                done[k] = p.exitcode
                del live[k]
            elif time.time() > min(deadline, born[k] + each):
                p.kill()
                p.join()
                done[k] = "timeout"
                del live[k]
        if time.time() > deadline:
            for k, *_ in pending:
                done[k] = "timeout"
            pending = []
    return done


_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None:
        _TMP = os.path.join(EVID, f"tmp.{os.getpid()}")
    d = _TMP
    os.makedirs(d, exist_ok=True)
    return d


def undecided(r):
    """a result that more solver time might change"""
    return bool(r.get("crash") and "timeout" in r["crash"] or any(o[1] == "unknown" for o in r.get("obligations", ()))
                or any("budget" in u for u in r.get("unsupported", ())))


def prove_all(pid, deadline, only=None, patience=1, retry=True):
    from dv import core
    from dv.env import env
    mod = importlib.import_module(f"specs.{pid.lower()}")
    if not mod.PROOFS:
        return []
    try:
        env()
        prep = getattr(mod, "prepare", None)
        if prep:
            prep()
    except BaseException as e:
        return [{"harness": "<load>", "crash": "cannot compile the current source: " +
                 "".join(traceback.format_exception(e))[-2500:], "secs": 0.0}]
    d = tmpdir()
    jobs = []
    order = sorted(only or mod.PROOFS, key=lambda n: -mod.PROOFS[n][1].get("weight", 1))
    core.Z3_TIMEOUT_MS, core.BUDGET_S = 4000 * patience, 240
    for i, n in enumerate(order):
        jobs.append((n, prove_worker, (pid, n, os.path.join(d, f"p{i}.json"))))
    ex = run_procs(jobs, deadline, "prove", 400)
    out = []
    for i, n in enumerate(order):
        f = os.path.join(d, f"p{i}.json")
        if os.path.exists(f):
            with open(f) as fh:
                out.append(json.load(fh))
            os.remove(f)
        else:
            out.append({"harness": n, "crash": f"prover process ended with {ex.get(n)}", "secs": 0.0})
    again = [r["harness"] for r in out if undecided(r)]
    if again and patience == 1 and retry and time.time() < deadline - 100:
        # a slow or busy machine: once more, with four times the solver time
        second = {r["harness"]: r for r in prove_all(pid, deadline, again, 4)}
        out = [second[r["harness"]] if r["harness"] in second and not undecided(second[r["harness"]]) else r for r in out]
    return out


# ------------------------------------------------------------------ runtime
def runtime_worker(pid, checks, seed, budget, out, lo=0):
    """evaluates runtime contracts on the real code"""
    os.environ.setdefault("DATAPROFILER_SEED", "0")
    t0 = time.time()
    res = {"counts": {}, "fails": [], "samples": {}, "distinct": {}, "crash": None}
    try:
        import warnings
        warnings.simplefilter("ignore")
        import logging
        logging.disable(logging.CRITICAL)
        rtm = importlib.import_module(f"rt.{pid.lower()}")
        seen = collections.defaultdict(set)
        k = 0
        nfail = collections.Counter()
        share = budget
        while time.time() - t0 < share and sum(nfail.values()) < 12:
            name = checks[k % len(checks)]
            gen, chk = rtm.CHECKS[name]
            i = lo + k // len(checks)
            rng = random.Random(f"{seed}/{name}/{i}")
            k += 1
            params = gen(rng, i)
            if params is None:
                continue
            res["counts"][name] = res["counts"].get(name, 0) + 1
            js = json.dumps(params, sort_keys=True, default=str)
            seen[name].add(hash(js))
            msg = guarded(chk, params)
            if name not in res["samples"]:
                res["samples"][name] = js[:400]
            if msg:
                nfail[name] += 1
                res["fails"].append((name, params, msg))
        res["distinct"] = {n: len(s) for n, s in seen.items()}
    except BaseException as e:
        res["crash"] = "".join(traceback.format_exception(e))[-3000:]
    with open(out, "w") as f:
        json.dump(jsonable_keep(res), f)


def jsonable_keep(x):
    return json.loads(json.dumps(x, default=str))


class CheckTimeout(BaseException):
    pass


def guarded(chk, params, secs=60):
    """returns a failure message or None; an exception out of the code under
    test is a failure, a hang is a failure"""
    def h(*a):
        raise CheckTimeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        return chk(json.loads(json.dumps(params)))
    except CheckTimeout:
        return f"no result after {secs} s"
    except Skip:
        return None
    except Exception as e:
        if internal_gone(e):
            return None
        return "raised " + "".join(traceback.format_exception(e))[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def internal_gone(e):
    """the runtime contract itself asked a dataprofiler object for a private name or signature it does not have (any more):
    no statement about behaviour"""
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(os.path.join(VERIF, "rt")):
        return False
    if isinstance(e, AttributeError):
        o = e.obj
        m = o.__name__ if isinstance(o, type(os)) else getattr(o if isinstance(o, type) else type(o), "__module__", "")
        return (e.name or "").startswith("_") and m.startswith("dataprofiler")
    return isinstance(e, TypeError) and bool(re.search(r"\b_[a-z]\w*\(\) (got an unexpected|missing \d+ required|takes )", str(e)))


class Skip(Exception):
    """the generated case is outside the precondition"""


def runtime_all(pid, seed, budget, deadline, only=None, lo=0):
    try:
        sys.path.insert(0, REPO)
        rtm = importlib.import_module(f"rt.{pid.lower()}")
    except ModuleNotFoundError as e:
        if "rt." in str(e) or "rt'" in str(e):
            return None
        return {"counts": {}, "fails": [], "samples": {}, "distinct": {}, "crashes": [str(e)]}
    except BaseException as e:
        return {"counts": {}, "fails": [], "samples": {}, "distinct": {},
                "crashes": ["".join(traceback.format_exception(e))[-2500:]]}
    names = [n for n in rtm.CHECKS if not only or n in only]
    d = tmpdir()
    jobs = []
    # regression cases run first, once
    for w in range(NPROC):
        jobs.append((w, runtime_worker, (pid, names[w % len(names):] + names[:w % len(names)],
                                         f"{seed}:{w}", budget, os.path.join(d, f"r{w}.json"), lo)))
    ex = run_procs(jobs, deadline, "runtime")
    tot = {"counts": collections.Counter(), "fails": [], "samples": {}, "distinct": collections.Counter(), "crashes": []}
    for w in range(NPROC):
        f = os.path.join(d, f"r{w}.json")
        if not os.path.exists(f):
            tot["crashes"].append(f"runtime worker ended with {ex.get(w)}")
            continue
        with open(f) as fh:
            r = json.load(fh)
        os.remove(f)
        tot["counts"].update(r["counts"])
        tot["distinct"].update(r["distinct"])
        tot["samples"].update(r["samples"])
        tot["fails"].extend(r["fails"])
        if r["crash"]:
            tot["crashes"].append(r["crash"])
    tot["fails"].sort(key=lambda f: len(json.dumps(f[1])))
    return tot


def _rt_child(args, out):
    r = runtime_all(*args)
    with open(out, "w") as f:
        json.dump(r, f, default=str)


def runtime_forked(pid, seed, budget, deadline):
    """the runtime contracts in a child: the real package is never imported into the proof process"""
    if not os.path.exists(os.path.join(VERIF, "rt", pid.lower() + ".py")):
        return None
    out = os.path.join(tmpdir(), "rt.json")
    p = mp.get_context("fork").Process(target=_rt_child, args=((pid, seed, budget, deadline), out))
    p.start()
    p.join(max(1, deadline + 30 - time.time()))
    if p.is_alive():
        p.kill()
        p.join()
    if not os.path.exists(out):
        return {"counts": {}, "fails": [], "samples": {}, "distinct": {}, "crashes": [f"runtime layer ended with {p.exitcode}"]}
    with open(out) as f:
        r = json.load(f)
    os.remove(out)
    return r


def add(a, b):
    for k in ("counts", "distinct"):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    a["fails"] += b["fails"]
    a["crashes"] += b["crashes"]
    a["samples"].update(b["samples"])


# ------------------------------------------------------------------ report
def match_known(pid, kind, name, msg):
    for k in known_findings():
        if k.get("status") == "fixed" or k["property"] != pid:
            continue
        if k.get("kind") == kind and k.get("where") == name and k.get("contains", "") in msg:
            return k
    return None


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(REPLAY, exist_ok=True)
    for f in os.listdir(REPLAY):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(REPLAY, f))
    mod = importlib.import_module(f"specs.{pid.lower()}")
    quick = tier == "quick"
    # a first round of runtime contracts; a failing input found here makes further proof effort pointless
    rt = runtime_forked(pid, f"{seed}", 25 if quick else 300, t0 + (90 if quick else 600))
    found = any(not match_known(pid, "runtime", n, m) for n, _, m in rt["fails"]) if rt else False
    t1 = time.time()
    deadline = t1 + ((150 if found else 520) if quick else (600 if found else 2400))
    proofs = prove_all(pid, deadline, retry=not found)
    t_proof = time.time() - t1

    bad = []          # (harness, what, detail dict)
    known = []
    n_ob = n_ok = 0
    backends = collections.Counter()
    funcs = set()
    used = collections.Counter()
    gone = [f"{r['harness']}: {m}" for r in proofs for m in r.get("missing") or ()]
    for r in proofs:
        if r.get("crash"):
            bad.append((r["harness"], "prover crashed", {"output": r["crash"]}))
            continue
        if r.get("missing") and len(gone) < len(proofs):
            continue      # the internal function this harness is about no longer exists under that name
        funcs.update(map(tuple, r["functions"]))
        used.update(r["used"])
        for (nm, st, why, model, path, be, secs) in r["obligations"]:
            n_ob += 1
            if st == "proved":
                n_ok += 1
                backends[be] += 1
            else:
                k = match_known(pid, "obligation", f"{r['harness']}/{nm}", json.dumps(path) + why)
                if k:
                    known.append(k)
                else:
                    bad.append((r["harness"], nm, {"status": st, "reason": why, "model": model, "path": path,
                                                   "backend": be}))
        for u in sorted(set(r["unsupported"])):
            bad.append((r["harness"], "outside the verifier's reach", {"reason": u}))
        for e in r["errors"]:
            k = match_known(pid, "error", r["harness"], e[0])
            if k:
                known.append(k)
            else:
                bad.append((r["harness"], "unexpected exception", {"traceback": e[0], "model": e[1], "path": e[2]}))
        if not r["obligations"] or not r["completed"]:
            if not r["errors"] and not r["unsupported"]:
                bad.append((r["harness"], "vacuous", {"reason": "no obligation was reached on a satisfiable path"}))
        for c in r["must"]:
            if c not in r["covers"] and not r["errors"] and not r["unsupported"]:
                bad.append((r["harness"], f"case not reached: {c}", {"reason": "expected case unreachable (vacuity guard)"}))

    # runtime contracts on the real code
    if rt and not found:
        budget = (130 if quick else 1200) if bad else (15 if quick else 900)
        add(rt, runtime_forked(pid, f"{seed}+", budget, time.time() + budget + 60))
    violations = []
    if rt:
        for c in rt["crashes"]:
            bad.append(("<runtime>", "runtime harness crashed", {"output": c}))
        sigs = set()
        for (name, params, msg) in rt["fails"]:
            k = match_known(pid, "runtime", name, msg)
            if k:
                known.append(k)
                continue
            sig = (name, msg[:60])
            if sig in sigs:
                continue
            sigs.add(sig)
            violations.append((name, params, msg))

    for k in {json.dumps(k, sort_keys=True) for k in known}:
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")

    lines = []
    summary = collections.OrderedDict()
    for h, what, det in bad:
        summary.setdefault((h, what), []).append(det)
    if violations:
        for i, (name, params, msg) in enumerate(violations[:5]):
            path = os.path.join(REPLAY, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "kind": "failing input", "check": name, "params": params, "message": msg,
                           "rerun": f"cd /verif && ./run.sh replay {path}",
                           "failed_obligations": [f"{h}: {w}" for (h, w) in summary][:40]}, f, indent=1)
            lines.append(f"VIOLATION property={pid} replay={path}")
            print(f"# {name}: {msg.strip().splitlines()[-1][:300]}")
    elif bad:
        path = os.path.join(REPLAY, f"{pid}-obligations.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "kind": "failed obligation",
                       "obligations": [{"function_harness": h, "obligation": w, "occurrences": len(d),
                                        "first": d[0]} for (h, w), d in summary.items()]}, f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for (h, w), d in list(summary.items())[:15]:
        print(f"# failed obligation {h} / {w}: {d[0].get('status', '')} {str(d[0].get('reason') or d[0].get('traceback') or d[0].get('output'))[-250:]}".replace("\n", " "))

    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": n_ob, "discharged": n_ok,
        "checker_cmd": f"./run.sh {pid} {tier}",
        "trusted_base": list(getattr(mod, "TRUSTED", [])) + BASE_TRUST +
        [f"assumed contract on dependency: {k} ({v} uses)" for k, v in sorted(used.items())],
        "backends": dict(backends),
        "solver_time_s": round(sum(r.get("solver_time", 0) for r in proofs), 2),
        "solver_queries": sum(r.get("queries", 0) for r in proofs),
        "proof_wall_s": round(t_proof, 1),
        "harnesses": [{"name": r["harness"], "paths": r.get("paths"), "obligations": len(r.get("obligations", [])),
                       "secs": round(r["secs"], 1), "invariants": r.get("invariants")} for r in proofs],
        "internal_functions_not_found": gone,
        "functions_under_contract": sorted(f"{a}:{b}" for a, b in funcs),
        "bounded_runtime_contracts": None if rt is None else {
            "note": "runtime contracts on the real code, seeded inputs: validates the assumed dependency contracts and "
                    "supplies failing inputs; bounded, never counted as proved",
            "evaluations": int(sum(rt["counts"].values())), "distinct": int(sum(rt["distinct"].values())),
            "per_check": dict(rt["counts"]), "samples": rt["samples"]},
        "bounded_only": list(getattr(mod, "BOUNDED", [])),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + BASE_ASSUME,
          "wall_s": round(time.time() - t0, 1), "violations": len(lines)}
    if level != "proof":
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
        if rt:
            cov["evaluations"] = int(sum(rt["counts"].values()))
            cov["distinct_nontrivial"] = int(sum(rt["distinct"].values()))
            cov["rule"] = getattr(mod, "RULE", "seeded generator per runtime contract; a case is non-trivial when distinct")
            cov["samples"] = [f"{k}: {v}" for k, v in rt["samples"].items()]
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    try:
        os.rmdir(tmpdir())
    except OSError:
        pass
    print(f"{pid} {tier}: {n_ok}/{n_ob} obligations discharged {dict(backends)}, "
          f"{len(proofs)} harnesses, {0 if not rt else sum(rt['counts'].values())} runtime contract evaluations, "
          f"{time.time() - t0:.0f}s")
    for ln in lines:
        print(ln)
    return 1 if lines else 0


BASE_TRUST = [
    "z3 5.3.2, cvc5 1.4.2 and the sympy 1.14 polynomial normal form used as back ends",
    "the symbolic executor dv/ (path exploration, cut-point loops, contract stubs) and CPython 3.12 executing the "
    "shadow copy of the current source",
    "mechanical extraction (dv/loader.py): imports redirected to dependency models, builtin calls, comprehensions and "
    "loops given a second arm for symbolic values; annotations and docstrings dropped; nothing else changes",
]
BASE_ASSUME = [
    "machine floats are treated as exact reals and machine integers as unbounded (rounding and overflow not modelled)",
    "the code under test runs single-threaded and is not interrupted",
]


def replay(path):
    sys.path.insert(0, REPO)
    with open(path) as f:
        r = json.load(f)
    if r["kind"] != "failing input":
        print(json.dumps(r, indent=1)[:6000])
        return 1
    import warnings
    warnings.simplefilter("ignore")
    rtm = importlib.import_module(f"rt.{r['property'].lower()}")
    msg = guarded(rtm.CHECKS[r["check"]][1], r["params"])
    print("FAILS: " + msg if msg else "passes now")
    return 1 if msg else 0

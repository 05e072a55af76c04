"""Development tool: confirm a planted bug in a scratch copy and store it under seeded/.

python3 tools/seed.py BUGFILE...   (BUGFILE: python with ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONHASHSEED="0", DATAPROFILER_SEED="0", CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3",
           MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
DEMO_SH = """#!/bin/bash
# cwd: the repository; exit 0 = the property held on this input
export DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **k)


def one(path, tests=True):
    b = {}
    exec(open(path).read(), b)
    wt = f"/tmp/wt_{b['ID']}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt, check=True)
    d = os.path.join(V, "seeded", b["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(b["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["PROP"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    good = sh(f"bash {d}/demo.sh", wt)
    for f, old, new in b["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", wt).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    bad = sh(f"bash {d}/demo.sh", wt)
    ok = good.returncode == 0 and bad.returncode != 0
    print(b["ID"], "demo clean:", good.returncode, "bug:", bad.returncode, (bad.stdout + bad.stderr)[-200:].strip().replace("\n", " | "))
    if good.returncode:
        print(good.stdout[-500:], good.stderr[-800:])
    miss = None
    if ok and tests:
        t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {wt}").replace("/opt/vp/reports", f"{wt}/reports")
        open(f"/tmp/test_{b['ID']}.sh", "w").write(t)
        sh(f"bash /tmp/test_{b['ID']}.sh /tmp/t_{b['ID']}.json", wt)
        a = json.load(open(f"/tmp/t_{b['ID']}.json"))
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(a["passed"]))
        print(b["ID"], "stable tests broken:", miss[:6])
        os.remove(f"/tmp/test_{b['ID']}.sh")
        os.remove(f"/tmp/t_{b['ID']}.json")
    if ok and not miss:
        r = subprocess.run(["./run.sh", b["PROP"], "quick"], cwd=V, env=dict(os.environ, DV_REPO=wt, VERIF_SEED="1"),
                           capture_output=True, text=True)
        print(b["ID"], "check exit", r.returncode, "|", " || ".join(r.stdout.strip().splitlines()[-6:]))
    else:
        print(b["ID"], "REJECTED")
        shutil.rmtree(d)
    shutil.rmtree(wt)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        one(p)

#!/usr/bin/env python3
"""Confirm a planted bug: plant.py ID... [--nocheck]

Applies seeded/ID/patch.diff to /repo, runs the build, the tests, the demo and
the property's quick check, and undoes it.  Demo must pass without the patch.
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(BASE.get("stable_passing") or BASE.get("stable") or BASE.get("passed") or BASE)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d):
    return sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo").returncode


def one(name, check=True):
    d = os.path.join(V, "seeded", name)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout, "repo dirty"
    res = {"demo_clean": demo(d)}
    ap = sh(f"git -C /repo apply {d}/patch.diff")
    if ap.returncode:
        return f"{name}: does not apply: {ap.stderr}"
    try:
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        sh("bash /opt/vp/test.sh /tmp/w/plant.json")
        out = json.load(open("/tmp/w/plant.json"))
        res["tests_lost"] = sorted(STABLE - set(out["passed"]))[:4]
        res["demo_bug"] = demo(d)
        if check:
            c = sh(f"/opt/venv/bin/python harness/run.py {prop} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1"))
            res["check_rc"] = c.returncode
            res["caught"] = f"VIOLATION property={prop} " in c.stdout
            res["clauses"] = [ln.strip()[17:] for ln in c.stdout.splitlines() if "violated clause" in ln][:3]
    finally:
        sh("git -C /repo checkout -- .")
    ok = res["demo_clean"] == 0 and res["demo_bug"] != 0 and not res["tests_lost"] and res["build"] == 0
    return f"{'VALID ' if ok else 'INVALID'} {'CAUGHT' if res.get('caught') else 'missed'} {name} [{prop}] {res}"


for n in [a for a in sys.argv[1:] if not a.startswith("--")]:
    print(one(n, "--nocheck" not in sys.argv), flush=True)

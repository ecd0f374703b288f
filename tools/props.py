"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/modopt/opt/algorithms/"
SOLVERS = [A + "base.py", A + "forward_backward.py", A + "primal_dual.py", A + "gradient_descent.py", A + "admm.py"]

# id, title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanisms, level note
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note, state=None, level="model_checking",
         technique="TLA+ spec, TLC trace validation"):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=" ".join(statement.split()), over=over, qtext=qtext, why=why,
                  files=files, mech=mech, note=note, state=state or [], level=level, technique=technique))


exec(open(os.path.join(ROOT, "tools", "props_list.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": ["public API calls and results"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".py")):
            cmd = "/opt/venv/bin/python harness/run.py " + p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: the checks observe the public API only. "
                            "Commits in /repo are fix: commits, listed in known-findings.json."}, fh, indent=1)
        fh.write("\n")


main()

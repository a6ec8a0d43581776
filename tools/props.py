#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (keeps the two in step)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], observe=observe or [], note=note))

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "verif", "enable": "-tags verif, for the harness package train only (SetTrainChunkSize); the other harnesses use the exported API alone. The harnesses are added to /repo's module through a build overlay", "source_commits": ["8b4e5447ae16271cf44964382343dee7a15ccb7f"]},
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                 "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by z3 (QF_BV), counterexamples replayed on the compiled code",
                 "level": "model_checking",
                 "level_note": "Holds for every input within the harness bounds (evidence coverage.harnesses). " + p["note"] + " Trusts the SSA-to-BV encoding (cross-checked against the compiled code on sampled paths each run), its models of the Go run time and of some standard library functions (DESIGN.md), and z3."}
                for p in P if p["id"] not in na],
     "not_applicable": NOT_APPLICABLE,
     "notes": "One engine (engine/, Go) and one driver (check.py). Harnesses in harness/, selected by the property id in their name. Known findings and fixed defects: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")

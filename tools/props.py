#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table; a property is claimed when rules/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, L = "mutagenyx/src/", "mutagenyx_lib/src/"
P = []
NA = {}


def p(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    rec = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        rec["anchors"]["observe_at"] = observe
    rec["anchors"]["hook_needed"] = None
    P.append((rec, technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, None, None)
    NA[id] = reason


exec(open(os.path.join(HERE, "tools", "proptable.py")).read())

claimed, out = [], []
P.sort(key=lambda x: x[0]["id"])
for rec, tech, note in P:
    for f in rec["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    assert len(rec["title"]) <= 80, rec["id"]
    if rec["id"] in NA:
        out.append(rec)
    elif os.path.exists(os.path.join(HERE, "rules", rec["id"].lower() + ".py")):
        out.append(rec)
        claimed.append((rec, tech, note))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for r in out:
        f.write(json.dumps(r) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "checks": [{"property": r["id"], "quick_cmd": "python3 check.py " + r["id"], "thorough_cmd": "python3 check.py " + r["id"],
                   "technique": t, "level": "other", "level_note": n} for r, t, n in claimed],
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "Static analysis of rustc's MIR of /repo's working tree: driver/mirfacts.rs dumps the type-checked, monomorphisation-free MIR; vlib/ holds the abstract interpreter; rules/ one rule per property. No code of /repo is run."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print("claimed", [r["id"] for r, _, _ in claimed], "na", list(NA))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so that they stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _t=technique, _n=note))

TE = "trading-engine/src/"
QL = "quantlib/src/"
exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {
    "version": 1,
    "setup_cmd": SETUP,
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} quick",
            "thorough_cmd": f"./run.sh {p['id']} thorough",
            "technique": p["_t"],
            "level": "model_checking",
            "level_note": p["_n"],
        }
        for p in P if p["_t"]
    ],
    "not_applicable": [{"property": p["id"], "reason": p["_n"]} for p in P if not p["_t"]],
    "notes": "No hooks: the checks use the public interfaces of the crates; the concurrency checks compile the unmodified sources against replacement std/once_cell/crossbeam-channel crates.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")

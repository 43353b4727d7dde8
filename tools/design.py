#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
C = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
def props():
    out = []
    for p in P:
        c = C.get(p["id"])
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        out.append(f"* over: {p['quantifier']['text']}")
        out.append(f"* why tests cannot: {p['why_tests_cant']}")
        out.append("* anchored in: " + ", ".join(f"`{f}`" for f in p["anchors"]["files"]))
        out.append(f"* decided by: {c['technique']}" if c else "* not claimed")
        if c: out.append(f"* bounds and limits: {c['level_note']}")
        out.append("")
    return "\n".join(out)
def findings():
    fixed, known = [], []
    for l in open(R + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m: fixed.append(f"| {m[1]} | {m[2]} | {m[3].strip()} |")
        m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l)
        if m: known.append(f"* **{m[1]}** `{m[2]}`: {m[3].strip()}")
    return f"Repaired ({len(fixed)}):\n\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fixed) + "\n\nKnown, not repaired:\n\n" + "\n".join(known)
def seeds():
    out = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
        m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
        caught = m["property"] + " quick"
        out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught} |".replace("\n", " "))
    return "\n".join(out)
s = open(R + "/DESIGN.md").read()
for k, f in (("properties", props), ("findings", findings), ("seeds", seeds)):
    s = re.sub(rf"(<!-- {k}: [^\n]*-->\n).*?(<!-- /{k} -->)", lambda m: m[1] + f() + "\n" + m[2], s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)

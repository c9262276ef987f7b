#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks/."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p.get("obs", [])}}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    c = os.path.join(root, "checks", i + ".json")
    if not os.path.exists(c):
        na.append({"property": i, "reason": "no check registered yet"})
        continue
    json.load(open(c))
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh " + i,
        "thorough_cmd": "./run.sh " + i + " -tier thorough",
        "technique": p.get("tech", "symbolic execution of the Go SSA of the real code, SMT (z3, cvc5) decides every branch and assertion, native replay of counterexamples"),
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: harnesses, models and seams enter through build overlays (harness/ as package zzverif, scaled constants, clock)"},
     "notes": "See DESIGN.md. known_findings.json lists genuine defects found here, open or fixed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks", len(na), "not applicable")

# DESIGN.md
out = [open(os.path.join(here, "design_head.md")).read(), "\n## Properties\n"]
seeds = {}
sd = os.path.join(root, "seeded")
res = {}
rf = os.path.join(here, "seed_results.json")
if os.path.exists(rf):
    res = json.load(open(rf))
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mt = json.load(open(os.path.join(sd, n, "meta.json")))
    seeds.setdefault(mt["property"], []).append((n, mt))
def tup(ps):
    return " ".join("[" + ",".join(map(str, q)) + "]" for q in ps) if ps else "-"
for p in PROPS:
    i = p["id"]
    out.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    out.append("*Quantified over*: %s. *Anchors*: %s. *Why tests cannot settle it*: %s\n" % (p["quant"], "; ".join("%s (%s)" % (b, a) for a, b in p["mech"]), p["why"]))
    if i in NA:
        out.append("Not applicable: %s\n" % NA[i])
        continue
    c = json.load(open(os.path.join(root, "checks", i + ".json")))
    if p.get("how"):
        out.append("*Specified and decided*: %s\n" % p["how"])
    out.append("Assumptions: %s.\n" % "; ".join(c["assumptions"]))
    out.append("| harness | bounds | quick | thorough |\n|---|---|---|---|")
    for h in c["harnesses"]:
        t = h.get("thorough")
        n = " (known finding %s)" % h["finding"] if h.get("finding") else ""
        n += " (every statement a preemption point)" if h.get("yield") else ""
        b = (h.get("bounds") or "").replace("|", "/")
        q = h.get("quick")
        out.append("| %s | %s%s | %s | %s |" % (h["fn"], b, n, tup(q), tup(t) if t else "as quick"))
    out.append("")
    if i in seeds:
        out.append("Planted bugs: " + "; ".join("%s (%s) %s" % (n, m["what_it_breaks"], res.get(n, "")) for n, m in seeds[i]) + ".\n")
out.append(open(os.path.join(here, "design_tail.md")).read())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))

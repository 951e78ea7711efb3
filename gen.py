#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from props.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(os.path.join(V, "props.py")).read(), ns)
P, NA = ns["P"], ns["NA"]
checks, man = {}, []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["obs"]} if "obs" in p else {})},
        }, ensure_ascii=False) + "\n")
for p in P:
    checks[p["id"]] = {"level": "model_checking", "explain": p["explain"], "outside": p["outside"], "harnesses": p["harnesses"]}
    man.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the real code's Go SSA, every path decided by SMT (z3, cvc5)",
        "level": "model_checking",
        "level_note": p["explain"] + " Outside: " + "; ".join(p["outside"]) + ".",
    })
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1, ensure_ascii=False)
json.dump({
    "version": 1, "setup_cmd": "bash setup.sh", "checks": man,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Solver-based checking with gosym (/verif/engine), a symbolic executor for Go SSA written for this task; see DESIGN.md. No hooks in /repo.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


# DESIGN.md
import glob
D = open(os.path.join(V, "design_head.md")).read()
D += "## Properties\n\n"
try:
    times = json.load(open(os.path.join(V, "times.json")))
except OSError:
    times = {}
for p in P:
    D += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    D += f"*For*: {p['quant']}.\n\n*How*: {p['explain']}\n\n*Why tests cannot*: {p['why']}\n\n"
    D += "*Outside the bounds*: " + "; ".join(p["outside"]) + ".\n\n"
    D += "*Harnesses*: " + ", ".join(f"`{h['pkg']}.{h['fn']}`" for h in p["harnesses"]) + "."
    t = times.get(p["id"])
    if t:
        D += " *Cost*: " + ", ".join(f"{k} {x}" for k, x in t.items()) + "."
    D += "\n\n"
if NA:
    D += "## Properties the technique does not reach\n\n"
    for p in NA:
        D += f"* **{p['id']} {p['title']}**: {p['statement']} — {p['reason']}\n"
    D += "\n"
D += open(os.path.join(V, "design_tail.md")).read()
D += "\n## Genuine defects found\n\nRepaired (`fix:` commits in /repo), each found or confirmed by the check of its property:\n\n"
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: property="):
        pid, h, what = l[len("fixed: property="):].strip().split(" ", 2)
        D += f"* {pid} `{h}`: {what}\n"
    elif l.startswith("{"):
        k = json.loads(l)
        D += f"* NOT repaired, {k['property']}: {k.get('what')}\n"
D += "\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
try:
    caught = json.load(open(os.path.join(V, "caught.json")))
except OSError:
    caught = {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    D += f"| {i} | {m['property']} | {m['needs']}: {m['what_it_breaks']} | {caught.get(i, '?')} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(D)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        if q["observe"]: a["observe_at"] = q["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
claimed = [q for q in P if not q["na"]]
note = ("Every obligation generated from the current source is discharged by SMT (z3, z3-new, cvc5) or by the verifier's simplifier, "
        "for all inputs and iterations. Assumed: the library contracts in spec/model and the built-in ones named in the evidence, "
        "no concurrent interference with the verified call, floating point as real numbers except where noted, and the verifier itself.")
m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": q["id"], "quick_cmd": f"bash /verif/check.sh {q['id']}",
                 "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {q['id']}",
                 "evidence_file": f"evidence/{q['id']}.json",
                 "technique": "contract-based deductive verification of the real code (symbolic execution of the SSA of /repo against contracts, loop invariants, SMT)",
                 "level": "proof", "level_note": (q["note"] + " " if q["note"] else "") + note,
                 "theorems": q.get("theorems") or []} for q in claimed],
     "not_applicable": [{"property": q["id"], "reason": q["na"]} for q in P if q["na"]],
     "notes": "See DESIGN.md. Contracts are under contracts/, the verifier under engine/, assumed library contracts under spec/model."}
for c in m["checks"]:
    if not c["theorems"]: del c["theorems"]
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

# DESIGN.md: tools/design_head.md, the contracts of each property and the planted bugs
import glob, re
def labels(lines, i, id, name):
    got = []
    try: # what the last run of the check proved
        for c in json.load(open(os.path.join(root, "evidence", id + ".json")))["coverage"]["contracts"]:
            if c["contract"] == name: got = [x for x in c["labels"] if not x.startswith("no-panic")]
    except Exception: pass
    if got: return " [" + "; ".join(got) + "]"
    for l in lines[i:]:
        got += [x for x in re.findall(r'spec\.Ensures\("([^"]*)"', l) if x not in got]
        if l.startswith("}"): break
    return " [" + "; ".join(got) + "]" if got else ""
out = open(os.path.join(here, "design_head.md")).read()
out += "## Properties and the contracts that decide them\n\n"
for q in P:
    out += f"### {q['id']} {q['title']}\n\n"
    if q["na"]:
        out += "Not applicable: " + q["na"] + "\n\n"; continue
    for f in sorted(glob.glob(os.path.join(root, "contracts", q["id"], "**", "*.go"), recursive=True)):
        lines = open(f).read().split("\n")
        for i, l in enumerate(lines):
            mm = re.match(r"func (Contract\w*)\(", l)
            if mm:
                j, doc = i - 1, []
                while j >= 0 and lines[j].startswith("//"):
                    doc.insert(0, lines[j][2:].strip()); j -= 1
                d = " ".join(doc)
                d = re.sub(r"^" + mm.group(1) + r"(:| is| \()?\s*", lambda x: "(" if x.group(1) == " (" else "", d)
                out += f"* `{mm.group(1)}` ({os.path.relpath(os.path.dirname(f), os.path.join(root, 'contracts', q['id']))}): {d}{labels(lines, i, q['id'], mm.group(1))}\n"
    if q["note"]: out += f"\nLimits: {q['note']}\n"
    out += "\n"
out += "## Planted bugs\n\nEach was confirmed to build, to pass the tests and to fail its demonstration; each is reported by the check of its property.\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    mj = json.load(open(f))
    out += f"| {os.path.basename(os.path.dirname(f))} | {mj['property']} | {mj['needs']} | {mj['what_it_breaks']} |\n"
open(os.path.join(root, "DESIGN.md"), "w").write(out)

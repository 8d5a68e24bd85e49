#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA, TRUST

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o) + "\n")

na = dict(NA)
checks = []
for p in P:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                   "thorough_cmd": "./check.sh " + p["id"],
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "Static analysis only: every check loads /repo's current source, type-checks it, builds SSA and decides the property by the rule described in DESIGN.md; no code of /repo is run."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
# DESIGN.md
import glob, re
rules = {}
for g in sorted(glob.glob(os.path.join(root, "analyzer", "*.go"))):
    for m_ in re.finditer(r'register\("(C\d+)",\s*("(?:[^"\\\\]|\\\\.)*"),\s*("(?:[^"\\\\]|\\\\.)*"),', open(g).read()):
        rules[m_.group(1)] = (json.loads(m_.group(2)), json.loads(m_.group(3)), os.path.basename(g))
seeds = json.load(open(os.path.join(here, "seeds.json"))) if os.path.exists(os.path.join(here, "seeds.json")) else {}
d = open(os.path.join(here, "design_head.md")).read()
d += "## Properties\n\n"
for p in sorted(P, key=lambda p: p["id"]):
    r, n, g = rules.get(p["id"], ("", "", ""))
    assert p["id"] in na or r, "no rule for " + p["id"]
    d += "### %s — %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["id"] in na:
        d += "*Not applicable*: %s\n\n" % na[p["id"]]
        continue
    d += "*Quantified over*: %s.\n*Decided by* (`analyzer/%s`): %s\n*Method*: %s.\n*Not covered*: %s; %s\n" % (p["forall"], g, r, p["tech"], n, p["note"].replace(TRUST, "").strip())
    k = sorted(x for x, v in seeds.items() if v["property"] == p["id"])
    if k:
        d += "*Planted*: " + "; ".join("`%s` (%s) — %s" % (x, seeds[x]["needs"], ("caught by " + ", ".join(seeds[x]["caught_by"])) if seeds[x]["caught_by"] else "not caught") for x in k) + ".\n"
    d += "\n"
d += open(os.path.join(here, "design_tail.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(d)

try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(m, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid", len(P), "properties,", len(checks), "checks")
except ImportError:
    print("written (no jsonschema)")

#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
from checks import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"] + [m["where"].split(":")[0] for m in p["anchors"]["mechanism"]]:
        if not os.path.exists(os.path.join(REPO, f)):
            print("missing anchor", p["id"], f)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append(dict(
        property=i,
        quick_cmd="python3 check.py %s --tier quick" % i,
        thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=c["technique"],
        level="model_checking",
        level_note=c.get("note") or ("Exhaustive within the stated bounds (" + c.get("bounds", "") + "); trusts the independent reference model in /verif/harness, the compiler and the sanitizers.")))
missing = [i for i in ids if i not in CHECKS]
m = dict(version=1,
         setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="ALEPH_VERIF", enable="no hooks are needed: the checks compile /repo's headers as they are", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason="The explorer for this property is not built yet; nothing is claimed.") for i in missing],
         notes="Every check compiles its explorer against /repo's working tree in a scratch directory and enumerates its bounded space exhaustively.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
lines = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    lines.append("### %s %s" % (p["id"], p["title"]))
    if c:
        lines.append("- Enumerated: " + c.get("bounds", p["quantifier"]["text"]))
        lines.append("- Oracle: " + c.get("oracle", c["technique"]))
        if c.get("cost"):
            lines.append("- Cost (quick): " + c["cost"])
        if c.get("remarks"):
            lines.append("- Remarks: " + c["remarks"])
    else:
        lines.append("- Plan: enumerate " + p["quantifier"]["text"][0].lower() + p["quantifier"]["text"][1:] + " Not built yet.")
    lines.append("- Beyond the tests: " + p["why_tests_cant"])
    lines.append("")
d = open(os.path.join(ROOT, "DESIGN.md")).read()
a, rest = d.split("<!-- BEGIN per-property (generated by tools/gen.py) -->")
_, b = rest.split("<!-- END per-property -->")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(a + "<!-- BEGIN per-property (generated by tools/gen.py) -->\n\n" + "\n".join(lines) + "\n<!-- END per-property -->" + b)
print(len(PROPS), "properties,", len(checks), "checks; unclaimed:", " ".join(missing))

"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (the single place where both are maintained)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, V)
import importlib
from props import PROPS, NA
from vf import check
for m in sorted(os.listdir(os.path.join(V, "vf", "rules"))):
    if m.endswith(".py") and m != "__init__.py":
        importlib.import_module("vf.rules." + m[:-3])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
na = set(x["property"] for x in NA)
for p in PROPS:
    if p["id"] in na:
        continue
    fn, technique, expl, assume = check.RULES[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + technique,
                   "level": "other", "level_note": expl + " Assumes: " + ("; ".join(assume) or "nothing beyond the "
                   "compiler front end's translation of the source") + "."})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": NA,
           "notes": "All checks rebuild the amalgamated library from /repo's working tree into LLVM IR on every run; "
                    "nothing of the library is executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(NA), "not applicable")

# DESIGN.md ----------------------------------------------------------------------------------------------------------
D = os.path.join(V, "tools", "design")
ns = {}
exec(open(os.path.join(D, "notes.py")).read(), ns)
out = [open(os.path.join(D, "head.md")).read().rstrip() + "\n"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in na:
        out.append("Not applicable: %s\n" % [x["reason"] for x in NA if x["property"] == p["id"]][0])
        continue
    fn, technique, expl, assume = check.RULES[p["id"]]
    out.append("*Decided by* %s.\n\n*What is enumerated and required:* %s\n" % (technique, expl))
    out.append("*Quantified over* %s. *Why tests cannot settle it:* %s\n" % (p["text"], p["why"]))
    if assume:
        out.append("*Assumes* " + "; ".join(assume) + ".\n")
    if p["id"] in ns["NOTES"]:
        out.append("*Notes.* " + ns["NOTES"][p["id"]] + "\n")
out.append("## 3. Which check catches which planted bug\n\n| seed | property | needs | caught |\n|---|---|---|---|")
S = os.path.join(V, "seeded")
for s in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, s, "meta.json")))
    c = ns.get("MISSED", {}).get(s, "yes, by " + m["property"])
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], c))
out.append("\n" + open(os.path.join(D, "tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))

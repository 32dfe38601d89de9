#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the whole system"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "none: /repo carries no hooks; vgen instruments a copy of its working tree", "enable": "./build.sh (copies /repo to .build/ws and rewrites the copy)", "source_commits": []},
    "checks": [], "not_applicable": [], "notes": NOTES,
}
for p in PROPS:
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    man["checks"].append({
        "property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p.get("tech", TECH), "level": "exploration", "level_note": p["note"],
    })
for i, r in NOT_APPLICABLE:
    man["not_applicable"].append({"property": i, "reason": r})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
D = os.path.join(V, "tools", "design")
rd = lambda n: open(os.path.join(D, n + ".md")).read() if os.path.exists(os.path.join(D, n + ".md")) else ""
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(rd("head"))
    for p in PROPS:
        f.write("### %s %s\n\n%s\n\n%s\n\n" % (p["id"], p["title"], "Quantified over " + p["quant"] + ".", rd(p["id"]).strip()))
    f.write("## Not applicable\n\n" + "".join("* **%s**: %s\n" % x for x in NOT_APPLICABLE) + "\n")
    f.write(rd("tail"))
    k = json.load(open(os.path.join(V, "known_findings.json")))
    f.write("## Known findings\n\n" + "".join("* %s: %s\n" % (x["property"], x["what"]) for x in k if x["status"] != "fixed"))
    f.write("\n## Defects found and repaired (`fix:` commits in /repo)\n\n" + "".join("* %s\n" % x["what"] for x in k if x["status"] == "fixed"))
    f.write("\n## Planted bugs and the checks that catch them\n\n| id | property | needs | breaks |\n|---|---|---|---|\n")
    S = os.path.join(V, "seeded")
    for i in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, i, "meta.json")))
        f.write("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"]))
    f.write("\n" + rd("seeds"))
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")

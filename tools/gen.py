#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
from props import PROPS, NA

NOTE = ("Deterministic static analysis of the compiler's MIR of /repo's current tree: path-sensitive dataflow over monomorphic bodies with "
        "closures and helpers inlined; std and dependency behaviour is assumed.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 analysis/extract.py",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the facts are extracted from the unmodified source", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": "python3 analysis/run_check.py %s" % p["id"],
        "thorough_cmd": "python3 analysis/run_check.py %s --tier thorough" % p["id"],
        "technique": p.get("technique", "static path-sensitive dataflow rules over MIR"),
        "level": "other", "level_note": p.get("note", NOTE),
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
from methods import M
kf = json.load(open(os.path.join(V, "known_findings.json")))
T = lambda n: open(os.path.join(HERE, n)).read()
out = [T("design_head.md")]
for p in PROPS:
    out.append("### %s  %s\n\n%s\n\n*Decided by:* %s\n\n*Why not by tests:* %s\n\n" % (p["id"], p["title"], p["statement"], M[p["id"]], p["why"]))
for p in NA:
    out.append("### %s  %s (not applicable)\n\n%s\n\n" % (p["id"], p["title"], p["reason"]))
out.append("## 3. Planted bugs\n\nEach is in `seeded/<id>`, passes the tests and has a demonstration. \"Caught by\" names the checks that report it.\n\n| bug | needs | caught by |\n|---|---|---|\n")
cp = os.path.join(HERE, "caught.json")
caught = json.load(open(cp)) if os.path.exists(cp) else {}
if os.path.isdir(os.path.join(V, "seeded")):
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        j = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        out.append("| %s | %s | %s |\n" % (d, j["needs"].replace("|", "/"), ", ".join(caught.get(d, ["?"])) or "none"))
out.append(T("design_tail.md").replace("@FIXED@", "\n".join("- " + x[len("fixed: "):] for x in kf["fixed"])))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "claimed,", len(NA), "not applicable")

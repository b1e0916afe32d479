#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (one source for both)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import NOT_APPLICABLE, PROPS  # noqa: E402

TECH = ("solver-based checking: symbolic execution of the real Python source (AST-instrumented on every run from /repo), "
        "z3 decides each assertion over all values within the bounds; counterexamples replayed on the unmodified code")


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}))
        i = p["id"]
        if i in NOT_APPLICABLE:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        else:
            assert os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")), i
            checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": p.get("technique", TECH), "level": "model_checking",
                           "level_note": p["note"]})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks execute the modules of /repo/src/quocslib as they are in the working tree; no hooks in /repo. "
                  "Known findings: known_findings.json."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()

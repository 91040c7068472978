#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from analysis/props.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import props

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in list(props.PROPS.values()) + props.NA:
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks = []
for p in props.PROPS.values():
    tech = []
    if p["laws"]:
        tech.append("gated value graphs from MIR compared with hand-written laws")
    if p["cone"]:
        if p["project"]:
            tech.append("value-graph comparison of failure conditions with the reviewed definitions")
        else:
            tech.append("gated value graphs from MIR compared with the reviewed definitions over the property's call cone")
    t = {"no_unsafe": "declaration and token scan over the fact base", "determinism": "call-graph reachability to nondeterminism sources",
         "errors": "use analysis of Result values"}
    tech += [t.get(r, "structural rule " + r) for r in p["rules"]]
    note = ("Reports every function whose result, outputs or effects are computed differently from its law or reviewed definition for some input; "
            "trusts rustc's MIR, the analyser and the models of std operators, treats dependencies as uninterpreted, and ignores implicit panics; "
            "functions the analyser cannot decide are listed in the evidence and judged by the names, fields and constants they mention.")
    if not p["cone"] and not p["laws"]:
        note = "Sound for the constructs it forbids, over every compiled function and every implementation of every trait method; trusts rustc's MIR and the list of forbidden sources."
    checks.append({"property": p["id"], "quick_cmd": "python3 analysis/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 analysis/check.py %s thorough" % p["id"],
                   "technique": "static analysis: " + "; ".join(tech), "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 analysis/facts.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA],
     "notes": "No hooks in /repo. The fact base is rebuilt from /repo's working tree whenever its sources change."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the rule registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/engine", V + "/rules"]
import props, registry

with open(V + "/properties.jsonl", "w") as f:
    for k, d in sorted(props.P.items()):
        if k not in registry.PROPS:
            continue
        a = {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}
        if d["observe"]:
            a["observe_at"] = d["observe"]
        assert len(d["title"]) <= 80, k
        f.write(json.dumps({"id": k, "title": d["title"], "statement": d["statement"],
                            "quantifier": {"over": d["over"], "text": d["text"]},
                            "why_tests_cant": d["why"], "anchors": a}) + "\n")
    for k, t, s, over, r in props.NA:
        f.write(json.dumps({"id": k, "title": t, "statement": s, "quantifier": {"over": over, "text": "all of them"},
                            "why_tests_cant": "It quantifies over every program or input.",
                            "anchors": {"files": ["compiler/x1algc.c", "simulator/opcodes.cpp"],
                                        "mechanism": [{"name": "whole system", "where": "compiler, simulator"}]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "checks": [{"property": k, "quick_cmd": "python3 /verif/check.py %s" % k,
                 "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % k,
                 "technique": props.P[k]["technique"], "level": props.P[k]["level"], "level_note": props.P[k]["note"]}
                for k in sorted(registry.PROPS)],
     "not_applicable": [{"property": k, "reason": r} for k, t, s, o, r in props.NA],
     "notes": "Static analysis engine in engine/, rules in rules/, property texts in tools/props.py. No hooks in /repo."}
miss = set(registry.PROPS) - set(props.P)
assert not miss, miss
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(registry.PROPS), "claimed")

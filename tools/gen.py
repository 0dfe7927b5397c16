#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
V = os.path.dirname(here)
ids = [p["id"] for p in props.P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]) + [n for n in props.NA]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in props.NA],
       "notes": "No hooks are needed in /repo: the exporter reads the compiler's MIR of the library crate."}
for p in sorted(props.P, key=lambda p: p["id"]):
    c = {"property": p["id"], "quick_cmd": "./check " + p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]}
    c["thorough_cmd"] = "./check %s --thorough" % p["id"]
    man["checks"].append(c)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "claimed", len(props.NA), "not applicable")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def line(i, p):
    return json.dumps({
        "id": i, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    **({"observe_at": p["observe"]} if p.get("observe") else {}),
                    "hook_needed": p.get("hook")}})


for i, p in list(PROPS.items()) + list(NOT_APPLICABLE.items()):
    assert len(p["title"]) <= 80, i
with open(V + "/properties.jsonl", "w") as f:
    for i, p in list(PROPS.items()) + list(NOT_APPLICABLE.items()):
        f.write(line(i, p) + "\n")

LEVEL_NOTE = ("Seeded exploration: many complete simulated executions per second, none exhaustive. Trusts the simulator's "
              "interpreters and memory model; see DESIGN.md for bounds.")
m = {
    "version": 1,
    "setup_cmd": "python3 sim/build.py",
    "hooks": {"guard": "JLM_SIMULATION", "enable": "sim/build.py compiles /repo's sources with -DJLM_SIMULATION; no code in "
              "/repo depends on it so far, the existing seams were enough", "source_commits": []},
    "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                "technique": p["technique"], "level": "exploration", "level_note": p.get("level_note", LEVEL_NOTE)}
               for i, p in PROPS.items()],
    "not_applicable": [{"property": i, "reason": p["reason"]} for i, p in NOT_APPLICABLE.items()],
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/props.py."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, HOOK_COMMITS
V = os.path.dirname(here)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        a = q["anchors"] = dict(q["anchors"])
        if isinstance(a.get("observe_at"), str): a["observe_at"] = [a["observe_at"]]
        a["hook_needed"] = a.get("hook_needed") or None
        assert len(q["title"]) <= 80, q["title"]
        assert set(q["quantifier"]["over"]) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}, q["id"]
        assert len([x for x in re.split(r"[.!?](?:\s|$)", q["statement"]) if x]) <= 3, (q["id"], "more than three sentences")
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 /verif/build.py",
    "checks": [],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Each check builds the simulator and ZenKit from /repo's working tree (content-hash cache in /verif/_build) and runs a seeded batch; VERIF_SEED selects the batch. Failures are minimised and written to /verif/replays; replay: <binary> --replay FILE --trace.",
}
for p in PROPS:
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 /verif/check.py {p['id']} quick",
        "thorough_cmd": f"python3 /verif/check.py {p['id']} thorough",
        "technique": p.get("technique", "deterministic simulation with fault injection: seeded search over operation histories, transfer schedules and faults against an executable reference model; failures minimised and replayed"),
        "level": "exploration",
        "level_note": p["level_note"],
    })
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    engines = sorted(set(x["engine"] for x in p["programs"]))
    tech = p.get("technique") or {
        ("mc",): "stateless model checking: exhaustive preemption-bounded enumeration of thread schedules (and environment faults) of the real code with happens-before race and memory checking",
        ("seq",): "bounded exhaustive enumeration of inputs / operation histories on the real code against a reference model, under ASan+UBSan",
        ("mc", "seq"): "stateless model checking of the real code (exhaustive preemption-bounded schedules) plus bounded exhaustive enumeration of inputs against a reference model",
    }[tuple(engines)]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": tech,
        "level": "model_checking",
        "level_note": p["note"],
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: instrumentation is done by the compiler and by link-time interposition. Every check builds what it needs from /repo's working tree.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

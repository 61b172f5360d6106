#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables in props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

VERIF = os.path.dirname(HERE)
ids = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.NOT_APPLICABLE:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
    elif i in props.ENGINE or i in props.OTHER:
        t = props.TECHNIQUE.get(i, props.TECHNIQUE[None])
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i}",
            "thorough_cmd": f"python3 tools/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": t[0],
            "level": "other",
            "level_note": t[1],
        })
    else:
        na.append({"property": i, "reason": "No check yet."})
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are static: the crates are type-checked with a compiler driver in the "
             "compiler's place, which interprets their MIR abstractly. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

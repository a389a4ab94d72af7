#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

MC = "stateless model checking of the compiled code: every schedule within the preemption bound, up to happens-before equivalence; races/deadlocks/oracle checked on each"
SEQ = "explicit-state model checking: every operation sequence / input of the bounded space is run on the compiled code and compared with a reference model"

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")

checks = []
for p in PROPS:
    i = p["id"]
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique") or (MC if c["engine"] == "mcx" else SEQ),
        "level": "model_checking",
        "level_note": c.get("note") or ("Exhaustive within: " + c["bounds"] + "."),
    })
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE]
ids = {p["id"] for p in PROPS}
claimed = {c["property"] for c in checks}
assert claimed | {k for k, _ in NOT_APPLICABLE} == ids, (ids - claimed - {k for k, _ in NOT_APPLICABLE})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py list",
    "hooks": {"guard": "ASLAM_MCX",
              "enable": "no hooks: the checks compile /repo's unmodified sources with compiler instrumentation and stand-in headers "
                        "from /verif",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": NOTES,
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(checks), len(na)))

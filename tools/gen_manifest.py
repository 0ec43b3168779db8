#!/opt/venv/bin/python
"""Writes MANIFEST.json from checks/plan.py and properties.jsonl."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks.plan import PLAN, NOTES  # noqa: E402

NA = {
    "N01": "closed-form arithmetic on one thread: no schedule, clock, I/O, crash or other "
           "party that a simulator could decide; the answer depends on the arguments only",
    "N02": "pure functions of one record; nothing for a scheduler or fault injector to act on",
    "N03": "pure numerical routines on an array; no nondeterminism or faults are involved",
    "N04": "pure array routines; no nondeterminism or faults are involved",
    "N05": "single-threaded linear algebra with numerical tolerances; the parallel part of it "
           "is P03",
    "N06": "pure linear algebra; no nondeterminism or faults are involved",
}

checks = []
for prop in sorted(PLAN):
    checks.append({
        "property": prop,
        "quick_cmd": "./check.py %s quick" % prop,
        "thorough_cmd": "./check.py %s thorough" % prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTES.get(prop, "") + "Seeded random search over schedules, faults and "
                      "inputs in a simulated machine; no exhaustiveness is claimed. Trusts "
                      "the simulator's model of the operating system and the check's "
                      "oracle. " + " ".join(a[0].upper() + a[1:] + "."
                                            for a in PLAN[prop]["assumptions"]),
    })
na = []
with open(os.path.join(VERIF, "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)
        if p["id"] not in PLAN:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks replace the standard "
              "library's doors to the operating system before xboa is imported",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Fixed defects are listed in known_findings.txt.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

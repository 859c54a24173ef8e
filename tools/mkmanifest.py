#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from table import TABLE
NA = {
    "N01": "pure function of one byte string: no schedule, clock, I/O or second party for a simulation to control",
    "N02": "pure functions of their input text, evaluated once at start-up: no schedule, clock or fault in them",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        t = TABLE[i]
        checks.append({"property": i,
            "quick_cmd": "python3 bin/check %s quick" % i,
            "thorough_cmd": "python3 bin/check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over "
                         "schedules, faults and workloads (scenarios %s); oracle: %s"
                         % (", ".join(t["scn"]), t["oracle"]),
            "level": "exploration",
            "level_note": t.get("note", "Samples seeded executions of the whole proxy under the "
                "simulator; a clean batch is evidence, not proof. YAZ++, the kernel and all peers are "
                "simulated; see DESIGN.md.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built")})
m = {"version": 1, "setup_cmd": "python3 bin/build.py",
     "hooks": {"guard": "MP_SIMULATION",
               "enable": "no hooks in /repo: the simulator interposes at link time (--wrap), by "
                         "compiler instrumentation and by standing in for YAZ++; bin/build.py compiles "
                         "/repo's sources with -DMP_SIMULATION, which no source tests",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "bin/check PROPERTY [quick|thorough]; DESIGN.md explains. known_findings.json lists "
              "recorded findings and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

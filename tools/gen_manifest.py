#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from sim/props.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from props import CHECKS, NA
NOTE = "Seeded search over message schedules, faults and configurations, running the real node code in-process on a simulated ROS, clock and random source; one seed is one repeatable execution. Assurance: no violation in the runs explored (counts in the evidence file), not a proof. Trusts the message/bus/clock stand-ins and, where named, the reference filter. "
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": "deterministic simulation with fault injection: " + CHECKS[p].get("technique", "seeded schedules, faults and configurations of the whole node"),
                 "level": "exploration", "level_note": NOTE + CHECKS[p]["rule"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not decided yet")} for p in props if p not in CHECKS],
     "notes": "No hooks were needed in /repo: the seams are the ROS interface, the C library clock and std::random_device, replaced at build time in /verif."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

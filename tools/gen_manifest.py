#!/usr/bin/env python3
"""Writes MANIFEST.json: every check the explorer has, with the method and note of NOTES."""
import json, subprocess, sys, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(here, "mc")):
    if f.endswith(".cpp"):
        have |= set(re.findall(r'Reg r\w+\("(C\d\d)"', open(os.path.join(here, "mc", f)).read()))
ENV = "stateless model checking of the real client: exhaustive deviation-bounded exploration of server and system-call behaviour"
HIST = "explicit enumeration of all operation histories to a depth on the real objects against a reference model"
ENUM = "bounded-exhaustive enumeration of inputs on the real code against a reference decision"
TECH = {"C05": "bounded-exhaustive enumeration of bodies through the real client, accepted message decoded by an independent parser", "C06": "bounded-exhaustive enumeration of attachment sets through the real client, decoded by an independent parser",
        "C07": "bounded-exhaustive enumeration of header fields through the real client", "C08": "bounded-exhaustive enumeration of field texts through the real client",
        "C21": HIST, "C22": HIST, "C28": HIST, "C24": "stateless model checking of thread schedules: real threads under a controlled scheduler, exhaustive within a preemption bound over environment calls and over every function entry (thorough: basic block) of the library, each schedule watched by ThreadSanitizer",
        "C25": ENUM, "C26": ENUM, "C27": ENUM, "C29": ENUM, "C30": ENUM}
NOTE = "Exhaustive within the phase bounds recorded in the evidence (no sampling); the code under test runs unmodified under ASan and UBSan against a simulated network, clock and SMTP/TLS server, which are trusted. Nothing is claimed beyond the stated alphabets and bounds."
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [],
     "notes": "check.py builds an explorer from /repo/src (content-addressed objects in /verif/build) and runs one check of it. Repairs of genuine defects are listed in known_findings.txt. No hooks are needed in /repo: the environment is interposed at link time."}
for i in ids:
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, ENV), "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "Within reach of the technique; its check is not finished yet."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")

#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl is either claimed
(NOTE has an entry) or listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "model checking of the implementation: every interleaving of the real code's goroutines up to the stated preemption/delay bound under a controlled scheduler, against a reference model, with race detection on every execution"
SEQ = "model checking of the implementation: every operation sequence up to the stated depth on the real code, against a reference model, checked after every step"
ENUM = "model checking of the implementation: exhaustive enumeration of the stated bounded input space on the real code, against an independent reference model"
FAULT = "model checking of the implementation: every fault point and fault kind (and pairs of them) of Start and Stop under a controlled scheduler, against a reference model"
OBS = "model checking of the implementation: every interleaving up to the stated bound, with the file as other processes see it checked at every state change"
TRUST = " Trusted: the scheduler and shims in /verif/mc, the source rewriting of cmd/mcgen, the reference model in cmd/check, and that the kernel's mmap keeps file and mapping coherent. Nothing is claimed outside the bounds listed in the evidence file."
NOTE = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash run.sh -setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile /repo's working tree through a build overlay that cmd/mcgen generates on every run (go build -overlay), so /repo needs no guarded code."}
for p in props:
    i = p["id"]
    if i in NOTE:
        tech, note = NOTE[i]
        m["checks"].append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "bash run.sh " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check registered yet (work in progress)"})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")

#!/usr/bin/env python3
"""Source of MANIFEST.json: one check per property in vlib/registry.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from vlib.registry import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLA+ specification checked with TLC; the C++ code is bound to it by replaying TLC-generated and random call "
        "sequences in an ASan build of /repo and validating every recorded event against the specification. "
        "Assurance is over the explored sessions; trusts TLC, the drivers' value conversion through public accessors.")
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s" % p,
                 "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                 "technique": "TLA+ model checking (TLC) with trace conformance of the real code",
                 "level": "model_checking", "level_note": NOTE} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "no specification and driver built for it yet"} for p in props if p not in CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

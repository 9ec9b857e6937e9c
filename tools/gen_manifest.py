#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, root)
from checks import PROPERTIES
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run_check.py {i} --tier quick",
            "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
            "technique": PROPERTIES[i].get("technique", "runtime monitors with reference-model oracles under ASan+UBSan on randomised workloads"),
            "level": "exploration",
            "level_note": PROPERTIES[i].get("note", "Held on every observed execution of the randomised workloads described in the evidence; says nothing about unexplored inputs. Trusts dune-common/geometry/grid/istl/localfunctions, the sanitizers, and the harness' mesh generator."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import json; json.load(open(\"MANIFEST.json\"))' && clang++ --version && g++ --version",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: dune-functions is header-only and every observation point is public. Each check compiles its harness translation units from /repo's working tree (see checks.py), runs each case in its own process and merges the monitors' logs. VF_CACHE=<dir> enables a content-addressed binary cache for development."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

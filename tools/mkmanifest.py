#!/usr/bin/env python3
"""Writes MANIFEST.json from the specification of the checks and the property list."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 check.py --build", checks=[], not_applicable=[],
         notes="Runtime monitoring: the library is compiled from /repo/src twice, with ASan, UBSan and its internal assertions, and plain; generated workloads run under MPI with message perturbation by a profiling layer, and monitors judge the observed events and states.  No hooks in /repo are needed: the monitors observe through the public interface and the MPI profiling interface.")
for p in props:
    i = p["id"]
    if i in SPECS:
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=SPECS[i].get("technique", "runtime monitoring: online oracle over generated MPI executions, plain and under ASan/UBSan"),
            level="exploration",
            level_note=SPECS[i].get("note", "Holds on the executions explored; trusts the monitor's independent model of geometry and leaves, MPI, libsc and the generators' reach.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "monitor not built yet; not claimed")))
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", "unclaimed:", [x["property"] for x in m["not_applicable"]])

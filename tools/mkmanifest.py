#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "pure functions of their arguments: no scheduling, time, I/O, failure or other party enters, so there is nothing for a simulator to control or inject",
 "N02": "the CUDA/HIP tool chains and a device runtime are not in the sandbox; the generated kernels cannot be built, so there is no real code to run under the simulator",
 "N03": "a property of a sequential compiler over all source texts; its only nondeterminism is its input. The generated code of the programs used here is executed and checked under C01, C19, C20 and C22",
}
checks = []
for pid in sorted(props.P):
    p = props.P[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --quick" % pid, "thorough_cmd": "python3 check.py %s --thorough" % pid,
                   "technique": p.technique, "level": p.level, "level_note": p.note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in props.P],
     "notes": "No hooks in /repo are needed: MPI is the seam in the code (an mpi.h found first on the include path), clocks, files, signals and process control are taken over at the libc boundary, and threads at the libgomp boundary."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when its harness file exists."""
import glob, json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
    "C16": "runtime monitoring: differential oracle over recorded outputs of three builds of the same workload",
    "C17": "guard pages around operands, pointer checking (checkptr) and AddressSanitizer over the real kernels",
    "C19": "runtime monitoring: statistical oracles over recorded sampler outputs",
    "C20": "runtime monitoring: recorded masks and noise of every ciphertext and key component, uniqueness and deviation oracles",
    "C24": "runtime monitoring with fault injection at every stream byte",
    "C25": "Go race detector plus result oracle over concurrent workloads on safe copies",
    "C26": "Go race detector plus result oracle over the parallel entry points",
    "C27": "runtime monitoring: deep snapshots of every operand around every operation",
    "C28": "runtime monitoring: differential oracle of used against fresh objects and dirty outputs",
    "A01": "runtime monitoring of the regenerated kernels against a pure-Go reference, with guard pages",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(HERE, "harness", i.lower() + ".go")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": TECH.get(i, "runtime monitoring: independent reference oracle over real executions in several builds"),
            "level": "exploration",
            "level_note": "Real library code run under generated workloads and watched by the oracle described in DESIGN.md (%s); the verdict covers the executions listed in the evidence file." % i,
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -c 'print(\"nothing to set up: each check builds what it needs\")'", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")

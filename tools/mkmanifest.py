#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from tools/spec.py and tools/mkprops.py."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
import spec, mkprops

NA = {
    "C22": "A rate over values that were never inserted is a statement about the distribution of hash values, not about the outcome of a run: no single input or state breaks it, so there is nothing a solver query can refute. What makes the rate right is decided elsewhere: dimensions from capacity and fpp (C15), positions spread by the fixed hash functions (C11, C12), a lookup is true only when all positions are set (C02).",
}
checks = []
for pid in sorted(spec.RUNS):
    tech = "symbolic execution of the compiled code (LLVM IR of the current tree), verdicts by z3/cvc5 over SMT-LIB2, counterexamples replayed natively"
    note = spec.NOTES.get(pid, "")
    c = dict(property=pid, quick_cmd="./check %s quick" % pid, thorough_cmd="./check %s thorough" % pid,
             evidence_file="evidence/%s.json" % pid, technique=tech, level="model_checking",
             level_note="All values of the symbolic inputs within the stated bounds; every path of the harness is explored to its end or the check is an error. " + note)
    checks.append(c)
m = dict(version=1, setup_cmd="./check setup", hooks=dict(guard="none", enable="no hook in /repo is needed: harness crates in /verif/harness have a path dependency on /repo", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Genuine defects repaired in /repo are listed in known-findings.txt. Bounds per harness run are in tools/spec.py and in the evidence files.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in mkprops.P:
        if p["id"] in spec.RUNS or p["id"] in NA:
            f.write(json.dumps(p) + "\n")
print(len(checks), "checks")

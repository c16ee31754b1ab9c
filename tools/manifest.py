#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = set()
for f in glob.glob(root + "/mc/*.go"):
    built |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
T = {
 "C11": "exhaustive enumeration of read divisions and failure points (deviation-bounded) against a reference model",
 "C12": "exhaustive enumeration of writer faults against a reference model",
 "C15": "exhaustive enumeration of operation histories on the real code with a state invariant",
 "C16": "controlled-scheduler exploration of all interleavings up to a preemption bound, on code instrumented statement by statement",
 "C17": "explicit-state exploration of assembler operation sequences against a schema model",
 "C18": "exhaustive enumeration of lookups and iterator histories against a reference model",
 "C24": "exhaustive enumeration of growing object families on code instrumented statement by statement, against a bound on executed statements and processor time",
 "C25": "exhaustive enumeration of sequences of changes to nodes and graphs of nodes against a reference model",
 "C23": "exhaustive enumeration of truncations and bit flips against a reference model",
}
note = "Every execution within the bounds listed in the evidence runs the real, current code and is compared with an independent reference model of git objects; nothing is sampled. Trusted: the reference model (mc/ref.go), the Go toolchain, go-ipld-prime and go-cid. Not covered: values outside the alphabets, more deviations than the bound."
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    if p["id"] in built:
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "model checking: " + T.get(p["id"], "deviation-bounded exhaustive exploration of object shapes and values on the real code against a reference model"),
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the exported API of /repo's working tree through an external module, and C16 and C24 compile an instrumented copy of the sources through go build -overlay, made afresh on every run."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")

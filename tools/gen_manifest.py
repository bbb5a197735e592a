#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Bounded symbolic execution of the LLVM IR of /repo with z3 as the deciding solver (engine/), driven by harnesses "
             "over the public API (harness/). No hooks in /repo are needed. Known and repaired defects: known-findings.txt.",
}
for p in props:
    if p in CHECKS:
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)",
            "level": "model_checking",
            "level_note": CHECKS[p].get("note", "") or (
                "Holds for every value of the symbolic inputs and every choice within the bounds: %s. One thread; hash values, "
                "allocation and logging are modelled; dependencies are executed, not modelled." % CHECKS[p]["bounds"]),
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

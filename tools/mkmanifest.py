#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif")
from props import PROPS, LEVEL_NOTES, NA
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
COMMON = ("Verus 0.2026.09.13 (Z3) discharges, function by function and for all inputs, the contracts extracted together with the code from /repo's current source on every run. "
          "Trusted: Verus/Z3/vstd, the extractor's rewriting rules, the listed assumed contracts of std (evidence trusted_base). "
          "A bounded run of the compiled crate accompanies it, to supply failing inputs and to stand in for functions the verifier rejects; it is reported as bounded, never as proved.")
checks = []
for i in ids:
    if i in PROPS and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique="contract-based deductive verification (Verus contracts on the extracted real functions)",
                           level="proof", level_note=(LEVEL_NOTES.get(i, "") + " " + COMMON).strip()))
na = [dict(property=i, reason=NA.get(i, "the contracts for this property are not written yet")) for i in ids if i not in PROPS or i in NA]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: /repo needs no instrumentation. Each check builds its extractor and its copy of the native harness itself.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

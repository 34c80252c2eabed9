#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans of check.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
TECH = {
    "T01": "model-based monitor over creation/destruction histories under ASan+UBSan",
    "T02": "reference-model monitor of index conversions",
    "M01": "AddressSanitizer + UndefinedBehaviorSanitizer on generated hostile calls",
    "M02": "memory ledger (every malloc/free of the library) balanced at call boundaries",
    "M03": "allocation-failure injection at every request of a call, ledger and status monitors, ASan",
    "M04": "origin-tracking user allocators, static and shared linking",
    "M05": "differential re-execution under fill patterns, address reuse and histories; MemorySanitizer",
    "S01": "before/after monitor of inputs, aliasing and form of results",
    "S02": "status monitor against an independent specification of valid calls",
    "S04": "model-based monitor over chains of calls: exact model, fresh-operand differential, ledger",
    "S03": "ThreadSanitizer with injected delays; concurrent against single-threaded results; ledger",
}
NOTE = {
    "default": "Held on the generated calls of the run (counts in the evidence file); trusts the independent reference "
               "model in harness/spec.cpp and the compiler. Says nothing about calls the generators cannot draw.",
    "M01": "No sanitizer report on the calls executed; red zones miss accesses that land in another live block.",
    "M03": "Exhaustive over the failing request of each generated call (single and sustained), sampled over calls.",
    "S03": "No race reported and no result changed on the interleavings executed; glibc's own rand() is not instrumented.",
}
checks = []
for p in (json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))):
    i = p["id"]
    if i in check.PLANS:
        checks.append(dict(property=i, quick_cmd="python3 check.py --property %s --tier quick" % i,
                           thorough_cmd="python3 check.py --property %s --tier thorough" % i,
                           technique=TECH.get(i, "reference-model monitor on generated calls (differential oracle), poisoned fresh memory"),
                           level=check.PLANS[i][0], level_note=NOTE.get(i, NOTE["default"])))
    elif i in ("H01", "H02") and os.path.exists(os.path.join(HERE, "conform.py")):
        import conform
        checks.append(dict(property=i, quick_cmd="python3 check.py --property %s --tier quick" % i,
                           thorough_cmd="python3 check.py --property %s --tier thorough" % i,
                           technique=conform.TECH[i], level="exploration", level_note=conform.NOTE[i]))
na = []
have = {c["property"] for c in checks}
for p in (json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))):
    if p["id"] not in have:
        na.append(dict(property=p["id"], reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks in /repo are needed: the checks redirect the library's memory functions "
                    "in its object files (objcopy --redefine-sym)", source_commits=[]))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

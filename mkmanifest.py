#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (what is claimed) and the tables below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import checks
NOT = {}   # property -> reason, for properties never claimed
TECH = {
 "P01": "differential monitor: values read back through every route compared bit for bit with the reference tree, under ASan+UBSan",
 "P02": "online oracle: every lookup function compared with a reference map/vector, under ASan+UBSan",
 "P03": "ASan monitor over exact-size allocations while validating and traversing genuine, truncated, mutated and random bytes",
 "P04": "byte comparison monitor across construction histories with poisoned fresh memory, under ASan+UBSan",
 "P05": "online oracle: value of every live handle checked against its own reference value after each step of random sharing histories, under ASan+UBSan",
 "P06": "online oracle: model-based histories compared with a reference map/vector after every operation, under ASan+UBSan",
 "P07": "allocation-balance monitor, refcount accounting oracle and instrumented user-defined reference counter over ownership histories, under ASan+UBSan",
 "P08": "ThreadSanitizer over stress schedules with injected delays, per-thread value oracles and destruction accounting",
 "P09": "differential oracle against an independent JSON reader on generated, mutated and random texts, under ASan+UBSan",
 "P10": "independent JSON reader over every produced text plus round trips, under ASan+UBSan",
 "P11": "oracle of generated YAML documents with known values plus mutated and random texts, under ASan+UBSan with allocation balance",
 "P12": "oracle: equality of all representation pairs compared with equality of the reference values, under ASan+UBSan",
 "P13": "oracle: complete accessor x type x representation matrix compared with the reference type, under ASan+UBSan",
 "P14": "online oracle: iterator walks compared with the reference sequence step by step, under ASan+UBSan",
 "P15": "oracle: inject/project compared with reference map overlay/restriction, results re-validated, under ASan+UBSan",
 "P16": "oracle: native value -> packet -> native round trips and near-miss comparisons against an independent encoder, under ASan+UBSan",
 "P17": "differential monitor: random C call histories in step with a reference model and the C++ interface, allocation balance, under ASan+UBSan",
 "P18": "fault-injection by misuse: matrix of entry points x wrong arguments, error codes/messages and argument values monitored, under ASan+UBSan",
 "P19": "differential monitor against the standard library types and instrumented element types, under ASan+UBSan",
 "P20": "oracle: operator results compared with native arithmetic, under ASan+UBSan",
 "P21": "allocation-fault injection at every allocation index with value, balance and ASan monitors",
}
NOTE = "Samples executions from seeded generators: holds for what was run, no proof for inputs or schedules outside it."
m = {"version": 1,
     "setup_cmd": "true",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())]}
for pid in sorted(checks.CHECKS):
    m["checks"].append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": TECH[pid], "level": "exploration", "level_note": NOTE})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in checks.CHECKS and p not in NOT:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

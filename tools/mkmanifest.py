#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "every observed result compared online with an independent exact oracle (MPFR/GMP); "
T = {
    "arith": ("runtime monitoring: MPFR oracle over random, boundary and constructed near-tie workloads",
              ORACLE + "exploration of a sampled, boundary-directed operand space, no completeness claim; trusts MPFR/GMP"),
}
T["text"] = ("runtime monitoring: exact GMP/MPFR decimal oracle over constructed ties, near-ties, borders and grammar mutations",
             "every observed text or value compared online with an exact decimal oracle (GMP/MPFR; grammar and layout rules confirmed on f64 in the same run); exploration of a sampled, boundary-directed input space, no completeness claim; lookup tables missing from the checkout are rebuilt by /verif/lut")
NOTES = {}
T["bits"] = ("runtime monitoring: independent bit-level oracle over exhaustive small and boundary-directed large input spaces",
             "every observed encoding compared online with an independently written encoder (MPFR/GMP for the constants); all f32, all 8/16-bit integers and all constants are covered completely, the rest is boundary-directed exploration")
for p in "C13 C14 C15 C25 C28".split():
    NOTES[p] = T["bits"]
NOTES["C29"] = ("runtime monitoring: trace checker of exact algebraic laws over random straight-line programs",
               "observed results are compared with each other (and with exact integer residuals) along chains of dependent operations; exploration without completeness claim")
NOTES["C26"] = ("sanitizers and runtime assertions: debug-assertion/overflow-checked build, AddressSanitizer and Miri over all workloads",
               "every call of every other property's workload observed to end normally with internal assertions and overflow checks on and under AddressSanitizer, a sample of jobs under Miri; exploration without completeness claim")
NOTES["C27"] = ("runtime monitoring: differential recording of the same job sequence across build configurations, thread schedules and Miri",
               "recorded (operation, operands, result) logs of optimised, checked, unoptimised, feature-less, other-compiler, multi-threaded and interpreted executions compared bit for bit; exploration without completeness claim")
for p in "C16 C17 C18 C19 C20".split():
    NOTES[p] = T["text"]
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C21 C22 C23 C24".split():
    NOTES[p] = T["arith"]
try:
    import manifest_notes
    NOTES.update(manifest_notes.NOTES)
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [
        {"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
         "technique": NOTES[p["id"]][0], "level": "exploration", "level_note": NOTES[p["id"]][1]}
        for p in props if p["id"] in NOTES
    ],
    "not_applicable": [
        {"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in NOTES
    ],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

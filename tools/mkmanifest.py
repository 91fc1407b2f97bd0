#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from properties.jsonl and validates it."""
import json, jsonschema, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tech = {
 "C01": "model-based stateful property testing, exhaustive short histories",
 "C02": "property testing against a sequence model over all layouts",
 "C03": "property testing against a queue model, exhaustive small scopes",
 "C04": "property testing against a sequence model, exhaustive small scopes",
 "C05": "stateful property testing with tracked elements",
 "C06": "random histories natively (guard-zone allocator) and under Miri",
 "C07": "stateful property testing with an allocation counter",
 "C08": "property testing against the slice comparison",
 "C09": "fault injection: generated histories with panics at every position",
 "C10": "model-based stateful property testing, exhaustive short histories",
 "C11": "model-based and metamorphic (hasher) property testing",
 "C12": "model-based and metamorphic property testing",
 "C13": "generated adversarial union orders on a bounded stack",
 "C14": "generated iterator programs against a sequence model, exhaustive small scopes",
 "C15": "stateful property testing with an allocator that counts bytes",
 "C16": "generated operation mixes timed against a small instance",
 "C17": "stateful property testing with an allocator that counts calls and bytes",
 "C18": "fault injection: generated histories with panics at every position",
 "C19": "stateful property testing with a recording hash builder",
 "C25": "stateful property testing with an allocation counter",
 "C26": "fault injection: generated histories with panics at every position",
 "C27": "stateful property testing with a recording hash builder",
 "C28": "generated streams and operands, timed and weighed against plain hash maps",
 "C43": "fault injection: generated operations with panics at every position",
}
note = {
 "ring": "Generated cases against a VecDeque model in unoptimised-check and release builds; short histories and small layouts are enumerated completely. Trusts the model; capacities and histories beyond the generated sizes are not covered.",
 "sets": "Generated histories against a class-label model over many key types and hashers; short histories are enumerated completely. Trusts the model; larger histories are sampled.",
 "counter": "Generated cases against a map model over many key types and hashers; small scopes are enumerated completely. Trusts the model.",
 "interval": "Generated cases over integers, strings, durations and other ordered types against a point-set model of a dense order; small scopes are enumerated completely. Trusts the model; values are sampled.",
}
mod = {"C0": "ring", "C1": "sets", "C2": "counter", "C3": "interval", "C4": "interval"}
checks = []
for p in props:
    i = p["id"]
    m = "ring" if i in ("C14", "C15", "C16") else mod[i[:2]]
    n = note[m]
    if i == "C06":
        n = "Miri judges each generated history under the Rust memory model (aliasing included); native runs add guard zones and scribbled memory. Undefined behaviour on paths not generated is not covered."
    if i == "C13":
        n = "Union orders of up to 60 thousand elements in a 40 KiB stack, work compared with plain hash map operations by a factor of 150. Orders beyond the generated families are not covered."
    if i in ("C16", "C28"):
        n = "Time is thread CPU time, best of three, against the same operations on a small instance or plain hash map operations with a wide factor (100, 150): it separates constant from linear and linear from quadratic work, nothing finer. Trusts the timer and the counting allocator."
    if i in ("C15", "C17", "C25"):
        n = "Bytes and calls are counted by an allocator of the harness, for element types without heap of their own. Generated histories; trusts the counting."
    if i in ("C18", "C26", "C43"):
        n = "One panic per operation, placed at a generated position in hashing, comparison, cloning, destruction, arithmetic or iterator code. Positions beyond those generated are not covered."
    checks.append({
        "property": i,
        "quick_cmd": "bin/check %s quick" % i,
        "thorough_cmd": "bin/check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech.get(i, "property-based testing against a reference model, exhaustive small scopes"),
        "level": "exploration",
        "level_note": n,
    })
man = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
       "notes": "No hooks: the checks use the public API only. Replay a reported case with bin/replay <file>. Known findings: known_findings.txt."}
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
ids = {p["id"] for p in props}
assert {c["property"] for c in checks} == ids
open(V + "/MANIFEST.json", "w").write(json.dumps(man, indent=1) + "\n")
ev = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for i in sorted(ids):
    f = V + "/evidence/%s.json" % i
    if os.path.exists(f):
        jsonschema.validate(json.load(open(f)), ev)
print(len(checks), "checks; evidence valid")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the workloads registered in harness/worker."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {}
for f in os.listdir(os.path.join(V, "harness", "worker")):
    s = open(os.path.join(V, "harness", "worker", f)).read()
    for m in re.finditer(r'register\("(\w+)"', s):
        have.setdefault(m.group(1), set()).add(f)
TECH = {
 "B": "runtime monitoring: instrumented build under virtual time and perturbed schedules, online comparison with a broker model and offline checkers over recorded histories (exactly-once, order, capacity, session isolation)",
 "D": "runtime monitoring: recorded broker traffic of ingest and digest calls, under faults and perturbed schedules, checked against a reference",
 "G": "runtime monitoring: random operation sequences with every view compared, after every operation, with an abstract graph",
 "S": "runtime monitoring: random operation sequences compared online with a store model",
 "C": "runtime monitoring: random operation sequences compared online with a link-set model",
 "P": "runtime monitoring: random operation sequences compared online with a plan model",
 "M": "runtime monitoring: generated values and mutated documents, results compared with an independent reference decoder",
 "E": "runtime monitoring: generated constructions compared with a reference of what each accessor reports",
 "A": "runtime monitoring: random operation sequences compared online with a map model and between copies",
 "U": "runtime monitoring: uniqueness monitor over generated ids, across goroutines and processes, with the race detector",
 "X": "runtime monitoring: ownership monitor which overwrites returned and given collections and compares all later answers with a model",
 "R": "runtime monitoring: recording scraper driven by generated option combinations, also concurrently and under the race detector",
}
CONC = {
 "X02": "runtime monitoring: end-to-end conservation checker (every ingested value arrives once, unaltered and in order; store, graph and cache equal the ingested network) under perturbed schedules with virtual time, and the race detector",
 "X03": "runtime monitoring: several instances used by a goroutine each and compared online with their own models, blocked neighbours, shared values compared before and after, under perturbed schedules with virtual time, and the race detector",
 "B07": "runtime monitoring: race detector under stress, and perturbed schedules under virtual time with panic, exact deadlock and goroutine leak detection",
 "G07": "runtime monitoring: recorded concurrent histories under perturbed schedules checked for linearizability (porcupine), view agreement at quiescence, race detector under stress",
 "S03": "runtime monitoring: bulk calls compared with single ones against a model, and recorded concurrent histories checked for atomicity (porcupine)",
 "G06": "runtime monitoring: DOT text of generated graphs parsed by an independent parser and compared with the model, exports interleaved and concurrent with other operations",
}
for p in ("S04", "C04", "P02"):
    CONC[p] = CONC["G07"].replace(", view agreement at quiescence", "")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason="its check is not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="./run " + i, thorough_cmd="VERIF_TIER=thorough ./run " + i,
        technique=CONC.get(i) or TECH[i[0]], level="exploration",
        level_note="Held on the executions produced (counted in the evidence file), nothing more. Trusts the Go toolchain, the monitors and models in harness/worker, the instrumenter in harness/cmd/instr and, in simulated runs, the lock replacements in harness/vsched."))
m = dict(version=1, setup_cmd="./run --setup", checks=checks, not_applicable=na,
    notes="Hooks: none in /repo. The checks instrument /repo's current tree through a go build overlay (harness/cmd/instr). Run a recorded violation again with ./run --replay FILE.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")

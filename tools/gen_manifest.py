#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claimed properties are those with an entry in CHECKS."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Held on every execution explored, nothing more: random and adversarial workloads, replayable from the seed. "
        "Trusts the harness's own oracle.")
CHECKS = {
 "C01": "online monitor of boolean-operation results against an independent winding-number oracle, hostile random workload",
 "C02": "work and termination monitor: counting allocator and CPU clock around boolean operations under hostile and extreme-scale workloads",
 "C03": "online monitor of error reporting: corrupted and re-presented inputs against a specification of the accepted ones",
 "C04": "online monitor of the shape, orientation and winding of every output contour under a hostile random workload",
 "C05": "online distance monitor: points along every output curve against all input curves, and result-bounding curves against the output",
 "C06": "online monitor of the winding numbers on both sides of every piece of the arrangement, against an independent winding-number oracle and as formal sums around vertices and along paths",
 "C07": "online monitor of contours for caller-defined winding numbers and predicates over many tagged paths, against an independent winding-number oracle",
 "C08": "online monitor of every drawn curve: exact ends, descent, distance to its input curve, copied parts, and order against the recorded sweep line",
 "C09": "online monitor of the sweep's event log through three interfaces: per-segment chains, connections, positions and distances",
 "C10": "online monitor of the sweep line's contents and order at every step, replayed from the reported changes and compared with the curves' true positions",
 "C11": "online monitor of curve comparisons: every interval against positions found by bisection, every query and transformation against the intervals",
 "C12": "monitor of recorded query histories of the comparison cache: repeated, swapped and direct answers compared bit for bit",
 "C13": "monitor of long skewed operation histories of the tree container against a plain vector, with element counting and structural checks at every step",
 "C14": "monitor of arena construction histories: assignment of pieces to input segments, distances, links, lists and untouched earlier contents after every addition",
 "C15": "online monitor of height solving: every answer evaluated on the curve and compared with bisection, exact ends, sub-curves followed",
 "C16": "online monitor of quadratic signs and parabola estimates against direct evaluation, degenerate and extreme coefficients",
 "C17": "record and compare bit-exact fingerprints of results, arrangements and event traces across repeated calls, reused buffers, concurrent threads with injected yields, and processes",
 "C18": "sanitizer build: the same cases run with slow assertions, debug assertions and overflow checks on, watching for panics and comparing bit-exact fingerprints with the optimised build",
 "C19": "online monitor of set-algebra laws relating the results of many operations, including operations on results, under a hostile random workload",
 "C20": "metamorphic monitor: the same drawing in other presentations must give the same point set at sample points",
 "C21": "online monitor comparing output elements with separate input shapes, exactly, in scenes with hostile surroundings",
 "C22": "online monitor of contour nesting: parent links and groups against winding-number containment at sample points",
}
checks = []
for pid, tech in CHECKS.items():
    extra = None
    if isinstance(tech, tuple):
        tech, extra = tech
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"./check.sh {pid} --thorough",
        "technique": "runtime monitoring: " + tech,
        "level": "exploration",
        "level_note": NOTE + (" " + extra if extra else ""),
    })
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
na = [{"property": p, "reason": "check under construction"} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")

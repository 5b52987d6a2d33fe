#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check is claimed for every property that has an explorer."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TRUST = ("Exhaustive within the stated bounds, in two build profiles (debug assertions and overflow checks on; both off). "
         "Trusts rustc/std as installed and the reference model; larger sizes are covered only by the small-scope argument.")
NOTES = {
 "C01": ("bounded exhaustive exploration of view states x access paths on the real code, against a row-major reference model", "Every access path of every dense and strided state within the bounds reaches the model's element. "),
 "C02": ("bounded exhaustive exploration of view and tensor states x argument alphabets (valid and invalid) on the real code", "Every invalid argument of the alphabet panics and leaves the array as it was, every valid one succeeds. "),
 "C03": ("bounded exhaustive exploration of parent states x all index tuples on the real code, against a reference model", "Every combination of integers, ranges and stepped ranges gives exactly the model's subarray. "),
 "C04": ("explicit-state search: view states closed under real view operations, each transition compared with a reference model", "Every operation from every state within the bounds and from the states the real operations reach gives exactly the model's view. "),
 "C05": ("bounded exhaustive exploration of states x all target shapes (incl. inferred) on the real code, against a representability oracle", "Every reshape within the bounds gives the model's array or is refused exactly when it has to be. "),
 "C06": ("bounded exhaustive exploration of mutable view operations x states on the real code, with a write-set oracle", "Every write through every mutable view within the bounds changes exactly the model's write set. "),
 "C07": ("explicit-state search over iterator states (all consumption histories) on the real code, against a reference model", "All sequences of next, nth, size_hint and fold within the bounds behave as the model's sequence. "),
 "C08": ("bounded exhaustive exploration of operand kinds x shape pairs on the real code, against a broadcasting model", "Every pair within the bounds pairs exactly the model's elements or is refused. "),
 "C09": ("bounded exhaustive exploration of states x axes x consumption orders on the real code, against a partition model", "Every axis and lane expression within the bounds yields exactly the model's parts in order. "),
 "C10": ("explicit-state search over tensor operation histories on the real code, lock-step with a reference model", "All operation histories within the depth bound agree with the model. "),
 "C11": ("explicit-state search over ownership histories on the real code with tracked elements and a checking allocator", "In all histories within the bounds each element is dropped once and each allocation freed once. "),
 "C12": ("exhaustive fault enumeration: a panic at every user callback of every operation from every state", "Every reachable callback position within the bounds is failed once; the array stays valid. "),
 "C13": ("bounded exhaustive exploration of operators x operand kinds x shapes on the real code with symbolic term elements", "Every operator and operand combination gives exactly the model's terms. "),
 "C14": ("bounded exhaustive exploration of pairs of contents x containers and layouts on the real code", "Equality, hash, contains and Debug agree with the model on all pairs within the bounds. "),
 "C15": ("bounded exhaustive exploration of serialized documents x target types on the real code, against a reference parser", "Every document within the bounds is accepted or rejected as the reference parser does. "),
 "C16": ("bounded exhaustive exploration of conversion paths x shapes on the real code, against a reference model", "Every conversion within the bounds keeps dims and elements, or fails exactly on mismatch. "),
 "C17": ("bounded exhaustive exploration of shape-type mixtures x operations on the real code, against one reference model", "Every static/dynamic mixture gives the same results as the model. "),
 "C18": ("bounded exhaustive exploration of view states and their derived views, comparing reported and real placement", "Reported strides, contiguity and lengths agree with the real addresses. "),
 "C19": ("exhaustive enumeration of the auto-trait matrix (type constructor x element class) on the real types", "The Send/Sync matrix of every public type over all four element classes equals the specification. "),
 "C20": ("explicit-state search over capacity histories on the real code, with allocator observation", "All histories within the depth bound keep the documented capacity guarantees. "),
 "C21": ("bounded exhaustive exploration of expression trees x consumers on the real code with recording closures", "Every closure call (count, order, argument) of every expression within the bounds is as in the model. "),
}
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    if os.path.exists(f"{V}/mc/src/bin/{p.lower()}.rs"):
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                       "technique": "model checking: " + tech, "level": "fault_enumeration" if p == "C12" else "model_checking",
                       "level_note": note + TRUST})
    else:
        na.append({"property": p, "reason": "explorer not written yet (work in progress)"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public API only. Repairs are the fix: commits listed in KNOWN_FINDINGS."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")

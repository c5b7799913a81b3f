#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS

NA = {
    "C90": "the Python bindings are ctypes glue around a Windows-only DLL; the behaviour lives in CPython's FFI, which cannot be symbolically encoded here",
    "C91": "wall clock liveness on a real link depends on the host timer and transport, which are outside the code; the schedule part is C06 and C07",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if i in PROPS:
        q = PROPS[i]
        note = ("Exhaustive within the bounds: " + q["bounds"] + ". Unwinding assertions prove the loop bounds suffice; "
                "CBMC memory-safety, pointer and conversion checks are on in the library code. ")
        if q["assumptions"]:
            note += "Assumes: " + "; ".join(q["assumptions"]) + ". "
        note += ("Trusts goto-cc/CBMC 6.11 (x86-64 model), its SAT/SMT back ends and the harness's oracle; "
                 "counterexamples are replayed on the natively compiled code before they are reported.")
        checks.append(dict(property=i, quick_cmd="python3 vc.py check " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 vc.py check " + i,
                           technique="bounded symbolic execution of the real C sources decided by a SAT/SMT solver (CBMC), counterexamples replayed natively",
                           level=q["level"], level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: no check of its own so far")))
m = dict(version=1, setup_cmd="python3 vc.py setup", checks=checks, not_applicable=na,
         notes="No hooks are needed: harnesses link the unmodified library sources. known_findings.jsonl lists fixed and open defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

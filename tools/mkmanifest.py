#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and bin/engines.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "bin"))
import engines
TECH = {
 "flow": "TLC solves the balance equations exactly (spec/FlowGen.tla) for enumerated and random networks, checks the theorems and prints the solutions, which are replayed into the real toolbox",
 "flowbig": "recorded runs of the real toolbox on large networks are judged by TLC against the balance equations in exact dyadic arithmetic (spec/FlowTrace.tla, spec/Dyadic.tla)",
 "solver": "recorded sequences of solves by one solver object are judged by TLC against region, balance and bounds in exact dyadic arithmetic (spec/FlowTrace.tla)",
 "hist": "TLC explores the toolbox state machine (spec/Toolbox.tla); its whole transition graph is walked with real toolboxes (exhaustive short and random long histories)",
 "tarjan": "recorded decompositions judged by TLC (spec/TarjanTrace.tla), by definition for small and by certificate for large graphs; allocation failures enumerated",
 "scc_model": "TLC model of the algorithm with its shared memory (spec/TarjanAlgo.tla) and of the certificates (spec/SccThm.tla)",
 "csr": "recorded histories of the real class stepped through the state machine by TLC (spec/CsrTrace.tla)",
 "csr_model": "TLC model of the compression algorithm (spec/CsrAlgo.tla)",
 "derived": "TLC proves the curve theorems on enumerated fields and prints exact curves for replay (spec/DerivedGen.tla); recorded results judged by TLC (spec/DerivedTrace.tla)",
 "curve": "recorded curves of any magnitude are judged by TLC in exact dyadic arithmetic (spec/CurveTrace.tla)",
 "cont": "recorded histories of the real objects stepped through state machines by TLC (spec/ContTrace.tla)",
 "threads": "TLC explores interleavings of calls in their own memory (spec/Threads.tla; common memory is told apart) and prints schedules, which are imposed on real threads by handing a baton on at the code's allocations; results compared with calls made alone",
 "solver_model": "TLC model of the solver's algorithm (components along the flow, sweeps on loops, arrays kept between solves; spec/SolverAlgo.tla) against the determinant solution, for all admissible orders and histories; histories replayed into a real solver",
}
NOTE = ("Holds on everything explored: the specification is model checked within the stated bounds, and the code agrees with it on all replayed or "
        "recorded behaviours of this run (counts in the evidence file). Trusts TLC, the compiler and AddressSanitizer; doubles are compared with exact rationals up to rounding "
        "(1e-10 relative) or, on flow loops, the solver's iteration tolerance.")
checks = []
for p in sorted(engines.PROPS):
    checks.append({"property": p,
                   "quick_cmd": "python3 bin/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "TLA+ model checking with conformance: " + "; ".join(TECH[e] for e in engines.PROPS[p]),
                   "level": "model_checking", "level_note": NOTE})
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public interfaces. Changes in /repo are fixes of genuine defects only (known-findings.txt)."}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")

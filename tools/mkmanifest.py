#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PS = "deterministic simulation: seeded search over grammars, token streams, control actions, heap failures and instance interleavings of real generated parsers, checked event by event against an executable reference model"
PSN = "Exploration: the real tool and the real generated parser run in one process under the simulator; every event history is compared with an independent LALR(1) and run-time model. Absence of violations is shown only for the explored cases. Trusts gcc, the reference model, and the generator's coverage."
TS = "deterministic simulation: the whole tool runs in one process over simulated files, heap, signals and process scheduling, with seeded fault injection and comparison with the undisturbed run"
TSN = "Exploration: the tool's own code is real; C library calls for files, memory, signals and exit are simulated. Absence of violations is shown only for the explored grammars, options and fault schedules."
CLAIM = {p: (PS, PSN) for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 L01 L02 L03 L04 L05 L06".split()}
CLAIM.update({p: (TS, TSN) for p in "T01 T02 T03 T04 T05 T06 T07 T08 T09".split()})
NA = {
 "N01": "A pure function of the grammar text: no scheduling, time, I/O, fault or history takes part, so simulation would degenerate to plain differential testing of reports; the automaton itself is decided through the behaviour of generated parsers (P01, L01).",
 "N02": "A pure text-to-text conversion with no nondeterminism, fault or history to simulate; completeness and integrity of these outputs under faults is decided by T01 and T05.",
 "N03": "Static text of the output; its correctness does not depend on any schedule or fault. That copied code executes with the right values is decided by P01 and L01.",
}
NOTYET = "check under construction"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        t, n = CLAIM[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i, technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, NOTYET)))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na, notes="Replay a reported violation with: bin/check --replay FILE")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the analyser's rules."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "analyzer", "props.go")).read()
expl = dict(re.findall(r'"(C\d\d)": \{Run: \w+, Explain: "(.*?)",?\n', src))
NA = {
 "C28": "A transport's Read cannot be interrupted by a context through the io.Reader interface the library accepts: whether and when a read that is blocked in the transport returns is decided by the transport's run-time behaviour, and no static argument over this code bounds it. (The waiting the library itself does is covered by C17 and C18.)",
}
AI = "abstract interpretation of the SSA form with trace partitioning (path-sensitive dataflow with symbolic contents)"
TECH = {
 "C10": "abstract interpretation of the codecs and of the package initialisation, layout compared field by field with the definition",
 "C11": AI + ", dispatch tables compared key by key",
 "C16": "evaluation of the typed constants, compared with the definition",
 "C17": AI + ", typestate of channels and once objects, lock order and wait graph",
 "C18": AI + ", typestate of what a loop has been told at every wait",
 "C23": AI + ", lockset and happens-before analysis over all pairs of accesses",
 "C24": "interprocedural taint analysis of writes to package state; escape analysis by " + AI,
 "C26": "type checking of every package and the interfaces, at 64 and 32 bits",
 "C27": AI + ", size change of everything a stream keeps on every round of its loops",
 "C37": AI + ", ranking values for every loop; call-graph cycle detection; waiting and lock effects",
 "C38": AI + ", composed over the whole chain of operations",
 "C41": AI + ", composed over the whole chain of operations",
 "C39": "transitive effect analysis over the call graph of every exported operation",
}
PENDING = "the rules for this property are still being built"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in expl:
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s quick" % i,
            "thorough_cmd": "bash check.sh %s thorough" % i,
            "technique": TECH.get(i) or "abstract interpretation of the SSA form with trace partitioning (path-sensitive dataflow with symbolic contents), rule per outcome",
            "level": "other",
            "level_note": expl[i] + " Nothing is executed. Trusted: the analyser, its models of the standard library, and the frozen definitions; undecidable code is reported, not passed.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: bin/mavcheck loads /repo's current source, builds SSA and decides the rules; see DESIGN.md. No hooks are needed in /repo."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")

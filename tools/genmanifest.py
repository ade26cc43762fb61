#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

TECH = {
    "dfs": "stateless model checking of the implementation: exhaustive bounded enumeration of operation sequences, nested callback actions and environment answers in lockstep with a reference model",
    "bfs": "explicit-state model checking of the implementation: breadth-first search over all reachable object states (canonical heap graphs) in lockstep with a reference model",
    "fam": "bounded exhaustive enumeration of all inputs over a finite alphabet executed on the implementation against a reference model",
    "sched": "stateless model checking of the implementation under a controlled scheduler: all thread interleavings up to a preemption bound at every memory access",
}
KIND = {
    "C01": "fam", "C02": "fam", "C03": "fam", "C04": "fam", "C05": "fam", "C06": "fam", "C07": "fam", "C28": "fam", "C29": "fam", "C30": "fam", "C31": "fam",
    "C08": "bfs", "C09": "bfs", "C10": "bfs", "C11": "fam", "C12": "dfs", "C13": "dfs", "C14": "bfs",
    "C15": "dfs", "C16": "dfs", "C17": "dfs", "C18": "dfs+sched", "C19": "sched", "C20": "sched+dfs", "C21": "dfs", "C22": "dfs", "C23": "dfs",
    "C24": "fam", "C25": "fam+sched", "C26": "fam", "C27": "sched",
}
NOTE = {
    "C21": "The kernel is a model (fake inotify); suite C21.kernel checks it against the real kernel on every raw operation sequence up to its bound, C21.real runs the library on the real kernel.",
    "C22": "System calls are answered by a model of the kernel which is checked against the real one by C21.kernel. Failures are injected at every call.",
    "C23": "The clock is never changed: timerfd is a model written after the kernel's documented behaviour; C23.real checks that the real one accepts the same calls.",
}
DEFAULT = ("Every execution within the bounds listed per suite in the evidence is run on the library compiled from /repo's sources "
           "(debug build by clang and release build by gcc, both under AddressSanitizer with leak accounting), compared step by step with a reference model. "
           "Nothing is claimed beyond the bounds. Trusted: the reference model, GLib, the compilers.")
SCHED = (" Scheduling points are all memory accesses of the library's code (compiler instrumentation) and its atomics; memory is sequentially consistent; GLib calls are atomic steps.")

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --thorough" % i,
            "technique": "; ".join(TECH[k] for k in KIND[i].split("+")), "level": "model_checking",
            "level_note": DEFAULT + (SCHED if "sched" in KIND[i] else "") + (" " + NOTE[i] if i in NOTE else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check yet: needs the controlled thread scheduler, which isn't finished"})
m["notes"] = "See DESIGN.md. Counterexamples are replayed with: python3 run.py --replay FILE"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

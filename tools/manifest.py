#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property the model checker implements is claimed."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = re.search(r"pub const IDS: &\[&str\] = &\[(.*?)\];", open(os.path.join(root, "mc/src/props/mod.rs")).read(), re.S).group(1)
ids = re.findall(r"C\d\d", ids)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("Decided by exhaustive exploration of the real code (no model in between) within the bounds in DESIGN.md and in the evidence file; "
        "trusted: the controlled runtime in mc/mcrt that stands in for the executor, timers, sockets and the lock primitives, and the sequentially consistent interleaving of tasks at those points.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in ids:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        evidence_file=f"evidence/{i}.json",
        technique="stateless model checking of the implementation: exhaustive bounded exploration under a controlled scheduler, clock and network",
        level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")

#!/usr/bin/env python3
"""Writes govc/signatures.json: the signatures the contracts were written for (argument: an SSA export of /repo)."""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "govc"))
import runner
s = runner.load_specs()
F = {f["name"]: f for f in json.load(open(sys.argv[1]))["functions"]}
out = {n: [[p["type"] for p in F[n]["params"] or []], F[n]["results"]] for n in s.SPECS if n in F}
json.dump(out, open(os.path.join(runner.HERE, "signatures.json"), "w"), indent=0, sort_keys=True)
print(len(out))

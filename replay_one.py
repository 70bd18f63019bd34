#!/usr/bin/env python3
"""Replays a counterexample file against the module compiled from /repo's current tree."""
import json, sys, check
j = json.load(open(sys.argv[1])); bc, wasm = check.build_crate(j["crate"])
r = check.replay(wasm, j["entry"], j["args"], [dict(assign=j["assign"])])[0]
print(json.dumps(r)[:2000]); sys.exit(1 if r["r"] == "fail" else 0)

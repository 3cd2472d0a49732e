#!/usr/bin/env python3
"""Writes contracts/baseline.json: for every function under contract, the shape (loops, calls) the contracts were written for,
and contracts/binders.txt: the local names they use.  Run on the unchanged tree after changing contracts or code."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(HERE, "build", "baseline")
ex = os.path.join(HERE, "extract/target/release/vx-extract")
base = [ex, "--repo", "/repo", "--contracts", os.path.join(HERE, "contracts"), "--out", out]
subprocess.run(base + ["--record"], check=True)
subprocess.run(base, check=True)
m = json.load(open(os.path.join(out, "map.json")))
b = {f["key"]: {k: f[k] for k in ("loop_kinds", "calls", "loop_hash", "returns")} for f in m["functions"] if "loop_kinds" in f}
json.dump(b, open(os.path.join(HERE, "contracts/baseline.json"), "w"), indent=1, sort_keys=True)
print(len(b), "functions")

#!/usr/bin/env python3
"""How stable are the proofs?  Verifies the extracted crate under several solver seeds.
usage: stress.py [seeds] [module...]"""
import json, os, subprocess, sys, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = "/tmp/vx-stress"
subprocess.run([HERE + "/extract/target/release/vx-extract", "--repo", "/repo", "--contracts", HERE + "/contracts", "--out", out], check=True)
n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
mods = [a for m in sys.argv[2:] for a in ("--verify-module", m)]
worst, bad = collections.Counter(), collections.Counter()
for s in range(n):
    a = ["--smt-option", f"smt.random_seed={s}"] + (["-V", "spinoff-all"] if s % 2 else [])
    p = subprocess.run(["verus", out + "/scribe.rs", "--output-json", "--time", *a, *mods], capture_output=True, text=True)
    r = json.loads(p.stdout[p.stdout.index("{"):])
    for m in r["times-ms"]["smt"]["smt-run-module-times"]:
        for f in m["function-breakdown"]:
            k = f["function"].replace("scribe::", "")
            worst[k] = max(worst[k], f.get("rlimit", 0))
            if not f["success"]:
                bad[k] += 1
for k, v in bad.items():
    print("FAILS", v, "of", n, k)
for k, v in worst.most_common(14):
    print(f"{v / 3e6:8.1f}  {k}")

#!/usr/bin/env python3
"""prints the table of planted bugs and the checks that catch them, from seedtest.py --check's output"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = open(sys.argv[1]).read()
rows = {}
for part in re.split(r"^== ", log, flags=re.M)[1:]:
    m = re.match(r"(\S+) \[(\S+)\] rc=(\d+)", part)
    failed = sorted(set(re.findall(r"not discharged: ([\w: ]+?): ", part)))
    out = sorted(set(re.findall(r"undecided by proof: ([\w:]+?)(?:: its contract is assumed| has a contract)", part)))
    inp = "VIOLATION" in part and "no-failing-input-found" not in part
    how = []
    if failed: how.append("failed obligation in " + ", ".join(f"`{f}`" for f in failed[:3]))
    if out: how.append("changed " + ", ".join(f"`{f}`" for f in out[:2]) + " is outside the verifier's reach: contract assumed")
    how.append("failing input found (bounded search)" if inp else "no failing input" if m.group(3) == "1" else "MISSED")
    rows[m.group(1)] = (m.group(2), "; ".join(how))
print("| planted bug | check | needs | how it is caught |\n|---|---|---|---|")
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    p, h = rows.get(i, (meta["property"], "not run"))
    print(f"| {i} | {p} | {meta['needs']} | {h} |")

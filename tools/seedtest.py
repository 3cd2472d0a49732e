#!/usr/bin/env python3
"""seedtest.py [--check] [ids]: validates planted bugs in a scratch copy; --check: runs the property's check on /repo with each one applied."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(SEEDED))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace"); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"
W = "/tmp/seedrepo"
if "--check" not in sys.argv:
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -- .", W)
    env = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only;"
    if "--noclean" not in sys.argv:
        c, o = sh(env + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
        print("clean:", o.count(" ... ok"), "ok", o.count("FAILED\n"))
    for i in ids:
        d = f"{SEEDED}/{i}"
        sh("git checkout -- .", W)
        r0 = sh(f"bash {d}/demo.sh", W)[0] if "--fast" not in sys.argv else 0
        c, o = sh(f"git apply {d}/patch.diff", W)
        if c: print(i, "PATCH FAILS", o); continue
        c, o = sh(env + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
        failed = [l for l in o.split("\n") if l.endswith("... FAILED")]
        comp = "could not compile" in o
        r1, o1 = sh(f"bash {d}/demo.sh", W)
        ok = r0 == 0 and r1 == 1 and not failed and not comp
        print(i, "OK" if ok else "BAD", f"demo clean={r0} patched={r1}", "tests failing:", failed[:4], "COMPILE ERROR\n" + o[-1500:] if comp else "", "" if r1 == 1 else o1[-600:], flush=True)
    shutil.rmtree(W, ignore_errors=True)
else:
    for i in ids:
        d = f"{SEEDED}/{i}"
        m = json.load(open(f"{d}/meta.json"))
        props = [a[7:] for a in sys.argv if a.startswith("--prop=")] or [m["property"]]
        c, o = sh(f"git -C /repo apply {d}/patch.diff", HERE)
        if c: print(i, "PATCH FAILS", o); continue
        try:
            for p in props:
                c, o = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p}", HERE)
                print(f"== {i} [{p}] rc={c}\n" + "\n".join("   " + l[:300] for l in o.strip().split("\n")[-7:]), flush=True)
        finally:
            sh("git -C /repo checkout -- .", HERE)

#!/usr/bin/env python3
"""Systematic small changes to /repo's sources, as planted bugs by the hundred (all in scratch copies).

mutate.py [--workers N] [--only FILE_SUBSTRING] [--skip K] [--ids K,K] [--out LOG] [--dir SCRATCH]
For each mutant that compiles and passes the tests: the proof of the whole crate, then the bounded search of the
properties whose functions it touches.  One line of JSON per mutant.
"""
import json, os, re, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import check, propmap
def arg(n, d): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
SWAPS = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![-=>])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""),
         (r" \+= ", " -= "), (r" -= ", " += "), (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"(?<=[ (])!(?=[\w(])", ""), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\.line\b", ".offset"), (r"\.offset\b(?!\()", ".line"), (r"\.start\(\)", ".end()"), (r"\.end\(\)", ".start()"), (r"\.start\b(?!\()", ".end"), (r"\.end\b(?!\()", ".start"),
         (r"\bold_content\b", "new_content"), (r"\bnew_content\b", "old_content"), (r"\bprevious\b", "next"), (r"\bnext\b", "previous"), (r"\bSome\((\w+)\)(?! *(=|=>))", "None"), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"), (r"\.rev\(\)", ""), (r"\.clone\(\)\.", "."),
         (r"\bgap_start\b", "gap_length"), (r"\bgap_length\b", "gap_start"), (r"\.take\(\)", ".clone()"), (r"\.pop\(\)", ".last().cloned()"), (r"\.skip\(1\)", ""), (r"'\\n'", "'\\\\r'"), (r"\blast\(\)", "first()"), (r"\.len\(\)", ".len() + 1"), (r"\.is_empty\(\)", ".len() == 1"), (r"if (?!let)([^{]+) \{", "if true {"), (r"if (?!let)([^{]+) \{", "if false {"),
         (r"\?;", ".ok();"), (r"\btrue\)", "false)"), (r"\.count\(\)", ".count() + 1"), (r"\bor_else\b", "and"), (r"\bunwrap_or\(([^()]*)\)", "unwrap_or(1)"), (r"saturating_sub\(1\)", "saturating_sub(0)")]

def code_lines(text):
    """numbers of the lines of code before the tests"""
    body = text.split("#[cfg(test)]")[0]
    out, block = [], False
    for i, l in enumerate(body.split("\n")):
        s = l.strip()
        if s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "extern")) or not s: continue
        out.append(i)
    return out

def mutants():
    r = []
    for root, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, "/repo/src")
            if not f.endswith(".rs") or arg("--only", "") not in rel: continue
            text = open(p).read()
            lines = text.split("\n")
            ok = code_lines(text)
            for i in ok:
                l = lines[i]
                code = l.split("//")[0]
                for pat, rep in SWAPS:
                    for m in re.finditer(pat, code):
                        n = code[:m.start()] + rep + code[m.end():] + l[len(code):]
                        if n != l: r.append((rel, i, l.strip(), n.strip(), lines[:i] + [n] + lines[i + 1:]))
                s = code.strip()
                if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "}", ")", ".")) and "(" in s or re.match(r"^[\w.*]+ [-+]?= .*;$", s):
                    r.append((rel, i, l.strip(), "(deleted)", lines[:i] + [""] + lines[i + 1:]))
                if s.startswith("return ") : pass
    seen, u = set(), []
    for m in r:
        k = (m[0], m[1], m[3])
        if k not in seen: seen.add(k); u.append(m)
    return u

def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return None, ""

def worker(w, q, log, lock, base):
    D = f"{arg('--dir', '/tmp/mut')}/{w}"
    repo, har, work = f"{D}/repo", f"{D}/harness", f"{D}/work"
    if not os.path.isdir(repo):
        os.makedirs(D)
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(os.path.join(HERE, "harness"), har)
        t = open(f"{har}/Cargo.toml").read().replace('"/repo"', f'"{repo}"')
        open(f"{har}/Cargo.toml", "w").write(t)
    while True:
        try: n, (rel, i, old, new, lines) = q.get_nowait()
        except queue.Empty: return
        p = f"{repo}/src/{rel}"
        keep = open(f"/repo/src/{rel}").read()
        r = dict(n=n, at=f"{rel}:{i + 1}", old=old, new=new)
        try:
            open(p, "w").write("\n".join(lines))
            only = "--proof-only" in sys.argv  # for mutants that the tests kill: does the proof fail as well?
            c, o = (0, "") if only else sh(["cargo", "test", "--lib", "--offline", "-q"], repo, 100)
            if c == 0 and not only: c, o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "-q", "--", "--test-threads", "4"], repo, 150)
            if c != 0:
                r["v"] = "tests" if c is None or "could not compile" not in o else "compile"
            else:
                pass
                shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
                pr = check.Proof(work, False, 1)
                pr.repo = repo
                pr.run()
                errs = sorted({d["key"] for d in pr.errors if d["key"]})
                dec = sorted({d["key"] for d in pr.errors if d["key"] and check.decisive(d, pr, base)})
                r.update(fatal=pr.fatal, errs=errs, decisive=dec, opaque=sorted(pr.opaque), noloops=sorted(pr.noloops))
                touched = set(errs) | pr.opaque
                proved = not pr.fatal and not touched
                props = [x for x in propmap.ALL if proved or pr.fatal or touched & propmap.closure(x, pr.functions)]
                props.sort(key=lambda x: -len(touched & propmap.direct(x, pr.functions)))
                c, o = (1, "") if only else sh(["cargo", "build", "--release", "--offline", "-q"], har, 300)
                r["found"] = None
                hits = []
                if c == 0:
                    json.dump(pr.mapping.get("literals", {}), open(f"{work}/dict.json", "w"))
                    for x in props:
                        secs = "4" if proved else "10"
                        c, o = sh([f"{har}/target/release/vx-harness", "search", x, "--seed", "1", "--secs", secs, "--threads", "2", "--out", f"{work}/r.json", "--dict", f"{work}/dict.json"], work, 60)
                        if c == 1: hits.append(x)
                        elif c != 0: hits.append(f"{x}!{c}")
                        if len(hits) >= (1 if not proved else 3): break
                else: r["harness"] = o[-300:]
                r["found"] = hits
                r["v"] = ("proved" if proved else "fatal" if pr.fatal else "fails" if dec else "undecided") + ("+found" if hits else "")
        except Exception as e:
            r["v"] = f"error {e!r}"
        finally:
            open(p, "w").write(keep)
        with lock:
            log.write(json.dumps(r) + "\n"); log.flush()

if __name__ == "__main__":
    ms = mutants()
    print(len(ms), "mutants")
    if "--list" in sys.argv:
        for k, m in enumerate(ms): print(k, m[0], m[1] + 1, m[2], "=>", m[3])
        sys.exit()
    q = queue.Queue()
    for k, m in enumerate(ms):
        if k >= int(arg("--skip", "0")) and (not arg("--ids", "") or str(k) in arg("--ids", "").split(",")): q.put((k, m))
    base = json.load(open(os.path.join(HERE, "contracts/baseline.json")))
    log, lock = open(arg("--out", "/tmp/mut.log"), "a"), threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, log, lock, base)) for w in range(int(arg("--workers", "2")))]
    for t in ts: t.start()
    for t in ts: t.join()

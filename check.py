#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. extract: /repo's functions, mechanically, with the contracts of contracts/ attached -> one Verus crate
2. verify: Verus discharges (or refutes) every obligation, function by function
3. bounded search on the real crate (harness/): looks for a failing input when an obligation is not
   discharged; on every run, for a few seconds, it also exercises what the contracts trust.

exit 0: held.  exit 1 + VIOLATION line: broken.  exit 2: the check could not run.
See DESIGN.md for what counts as a violation.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
import propmap  # noqa: E402

EXTRACT = os.path.join(HERE, "extract/target/release/vx-extract")
HARNESS = os.path.join(HERE, "harness/target/release/vx-harness")
THREADS = str(max(2, min(8, os.cpu_count() or 4)))
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=HERE, env=None):
    """(exit code or None when it ran out of time, stdout, stderr)"""
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""


def build(what):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env["CARGO_TARGET_DIR"] = os.path.join(HERE, what, "target")
    code, out, err = run(["cargo", "build", "--release", "--offline", "-q"], 600, os.path.join(HERE, what), env)
    return (code == 0), err


# ------------------------------------------------------------------------------------ the prover
THEOREMS = "lemmas of theorems"
OBLIGATION = re.compile(r"not satisfied|assertion failed|assert_by|possible arithmetic|possible division|overflow|underflow|resource limit|rlimit|recommendation not met|could not prove|unable to prove|might not|not be allowed to fail|split assertion|unreached|decreases", re.I)


def is_obligation(d):
    """a failed proof obligation, as opposed to something the front end (rustc or Verus) does not accept"""
    return not d.get("code") and bool(OBLIGATION.search(d["message"]))


class Proof:
    """One extraction and verification of the whole crate."""

    def __init__(self, work, thorough, seed):
        self.work, self.thorough, self.seed, self.repo = work, thorough, seed, REPO
        self.opaque, self.notes, self.fatal = set(), [], None
        self.bare, self.noloops = set(), set()
        self.functions, self.labels, self.errors = [], [], []
        self.solver_ms = self.wall = 0
        self.units, self.cmds, self.dropped_hints = {}, [], 0
        self.mapping = {}

    def extract(self, extra=()):
        cmd = [EXTRACT, "--repo", self.repo, "--contracts", os.path.join(HERE, "contracts"), "--out", self.work]
        if self.opaque:
            cmd += ["--opaque", ",".join(sorted(self.opaque))]
        if self.bare:
            cmd += ["--bare", ",".join(sorted(self.bare))]
        if self.noloops:
            cmd += ["--no-loop-specs", ",".join(sorted(self.noloops))]
        code, out, err = run(cmd + list(extra), 120)
        if code != 0:
            return f"extraction fails: {err.strip()[-600:]}"
        self.mapping = json.load(open(os.path.join(self.work, "map.json")))
        self.functions, self.labels = self.mapping["functions"], self.mapping["labels"]
        return None

    def function_at(self, line):
        for f in self.functions:
            if f["start"] <= line < f["end"]:
                return f["key"]
        return None

    def verus(self, args=(), timeout=400):
        path = os.path.join(self.work, "scribe.rs")
        cmd = ["verus", path, "--output-json", "--time", "--error-format=json", "--multiple-errors", "8", *(() if "--rlimit" in args else ("--rlimit", "30")), *args]
        self.cmds.append(" ".join(cmd))
        t = time.time()
        code, out, err = run(cmd, timeout, self.work)
        self.wall += time.time() - t
        diags = []
        for l in err.split("\n"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                spans = [s for s in d["spans"] if s["file_name"].endswith("scribe.rs")]
                prim = [s for s in spans if s["is_primary"]] or spans
                s = prim[0] if prim else None
                # a failed precondition or postcondition names the clause and the place; the place decides the function
                place = next((x for x in spans if (x.get("label") or "").startswith(("at this", "at the end"))), s)
                diags.append(dict(message=d["message"], code=(d.get("code") or {}).get("code"), rendered=d.get("rendered") or "", line=place["line_start"] if place else 0, prim=s, spans=spans, key=self.function_at(place["line_start"]) if place else None))
        try:
            res = json.loads(out[out.index("{"):])
        except ValueError:
            res = {}
        return code, res, diags

    def take_units(self, res):
        for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.units[f["function"]] = (f.get("mode:", "?"), bool(f["success"]), f.get("time-micros", 0))
        self.solver_ms += res.get("times-ms", {}).get("smt", {}).get("total", 0)

    def run(self):
        """verifies; where the verifier cannot take a changed function, first its proof hints, then its loop
        invariants, then its body are left out (and the function is reported as not proved)"""
        for attempt in range(12):
            p = self.extract()
            if p:
                self.fatal = p
                return
            code, res, diags = self.verus()
            vr = res.get("verification-results", {})
            front = [d for d in diags if not is_obligation(d)]
            if "verified" in vr and not vr.get("encountered-vir-error") and not front:
                break
            if code is None:
                self.fatal = "the verifier does not come to an end in its time"
                return
            fns = {f["key"] for f in self.functions if f["status"] == "verified" and not f["key"].startswith(("lemmas of ", "DynOperation::"))}
            hit = {}
            for d in front or diags:
                if d["key"] in fns and d["key"] not in self.opaque:
                    hit.setdefault(d["key"], []).append(d)
            if not hit and any(d["key"] == THEOREMS for d in front or diags) and THEOREMS not in self.opaque:
                self.opaque.add(THEOREMS)  # they use the fields and signatures of the library as they were
                self.notes.append("the theorems about sequences of calls do not apply to this tree: " + (front or diags)[0]["message"].splitlines()[0][:200])
                continue
            if not hit:
                self.fatal = "the verifier does not accept the extracted crate: " + (diags[0]["message"][:300] if diags else "no result")
                return
            for k, ds in hit.items():
                kinds = {next((x[2] for x in self.labels if x[0] == d["line"]), "code") for d in ds}
                self.notes.append(f"{k}: outside the verifier's reach as it is: {ds[0]['message'].splitlines()[0][:200]}")
                if k not in self.bare and any(x.startswith("proof at") for x in kinds):
                    self.bare.add(k)
                elif k not in self.noloops and any(x.startswith("loop") for x in kinds):
                    self.bare.add(k)
                    self.noloops.add(k)
                else:
                    self.opaque.add(k)
        else:
            self.fatal = "the verifier does not accept the extracted crate"
            return
        self.take_units(res)
        self.errors = diags
        if diags:
            self.settle()
        for f in self.functions:
            if f["status"] in ("unknown", "opaque") and f["key"] not in self.opaque:
                self.opaque.add(f["key"])
                self.notes.append(f"{f['key']}: no contract of its own, and not inlined")

    def hint(self, d):
        """the place in the text of a proof (not in a contract, an invariant or the code) that this diagnostic is about, if it is about one"""
        if d["message"].startswith("precondition"):
            s = next((x for x in d["spans"] if x["line_start"] == d["line"]), None)
        elif d["message"].startswith("assertion"):
            s = d["prim"]
        else:
            return None
        return s if s and all(self.in_proof(n) for n in range(s["line_start"], s["line_end"] + 1)) else None

    def about_proof(self, d):
        return not re.match("postcondition|.*invariant", d["message"]) and self.in_proof(d["line"])

    def in_proof(self, line):
        return any(x[0] == line and x[2].startswith("proof at") for x in self.labels)

    def settle(self):
        """what fails is tried again with more resources; failing proof hints are removed, since a hint is not an obligation of the code"""
        path = os.path.join(self.work, "scribe.rs")
        for round_ in range(5):
            mods = sorted({f["module"] for d in self.errors for f in self.functions if f["key"] == d["key"]})
            if not mods:
                return
            text = open(path).read().split("\n")
            changed = False
            done = set()
            for d in self.errors:
                at = self.hint(d)
                if at and at["line_start"] not in done:
                    with_ = "assert(true)" if d["message"].startswith("precondition") else "true"
                    a, b = at["line_start"] - 1, at["line_end"] - 1
                    head, tail = text[a][: at["column_start"] - 1], text[b][at["column_end"] - 1:]
                    text[a: b + 1] = [head + with_ + tail] + [""] * (b - a)
                    done.add(at["line_start"])
                    changed = True
            if not changed and round_ > 0:
                return
            before = open(path).read()
            was = before.split("\n")
            assert len(was) == len(text) and all(a == b or self.in_proof(n) for n, (a, b) in enumerate(zip(was, text), 1)), "only proof text may be left out"
            open(path, "w").write("\n".join(text))
            args = ["--rlimit", "120", "--smt-option", f"smt.random_seed={round_}"]
            if round_ % 2:
                args += ["-V", "spinoff-all"]
            for m in mods:
                args += ["--verify-module", m]
            code, res, diags = self.verus(args, 300)
            vr = res.get("verification-results", {})
            if "verified" not in vr or vr.get("encountered-vir-error"):
                open(path, "w").write(before)
                return
            self.dropped_hints += len(done)
            self.take_units(res)
            self.errors = diags
            if not diags:
                return


def decisive(d, proof, base):
    """whether a failed obligation says something about the code rather than about the proof: the function still has the
    loops its invariants were written for and every anchor of its proof, returns from no more places if its proof has hints
    beyond its entry, and calls nothing the proof knows nothing of"""
    f = next((f for f in proof.functions if f["key"] == d["key"]), None)
    b = base.get(d["key"])
    if not f or not b or f["missing"] or d["key"] in proof.bare or f["loop_kinds"] != b["loop_kinds"] or f["loop_hash"] != b["loop_hash"]:
        return False
    if f["returns"] > b["returns"]:  # leaves where no hint of the proof is at hand
        return False
    if proof.about_proof(d) or re.search("resource limit|rlimit", d["message"], re.I):
        return False
    unknown = {k.split("::")[-1] for k in proof.opaque} | weak_names()
    return not any(c for c in f["calls"] if c not in b["calls"] and c.lstrip(".").split("::")[-1].removeprefix("vx_") in unknown)


def weak_names():
    """the std functions whose assumed contract says less than the function does (`//@ weak` in contracts/prelude_*.rs)"""
    out = set()
    for p in sorted(glob.glob(os.path.join(HERE, "contracts", "prelude_*.rs"))):
        for m in re.finditer(r"^\s*//@ weak (.*)$", open(p).read(), re.M):
            out |= set(m[1].split())
    return out


def unit_key(unit, functions):
    """the extractor's key of a function that the verifier reports on"""
    parts = unit.split("::")
    if parts[0] != "scribe":
        return None
    if len(parts) > 2:
        mod, name = parts[1], parts[-1]
        for f in functions:
            if f["module"] == mod and (f["key"] == "::".join(parts[2:]) or (f["key"].split("::")[-1] == name and "impl&" in unit)):
                return f["key"]
        if any(f["module"] == mod for f in functions):
            return f"lemmas of {mod}"
    return "prelude"


def trusted_base(text):
    """names of everything the proofs take for granted, scanned from the text that was verified"""
    out, lines = [], text.split("\n")
    for i, l in enumerate(lines):
        if "#[verifier::external_body]" in l or "#[verifier::external" in l:
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[k])
                if m:
                    out.append(f"external {m.group(1)} {m.group(2)}")
                    break
        m = re.search(r"\buninterp spec fn (\w+)", l) or re.search(r"\baxiom fn (\w+)", l)
        if m:
            out.append(("uninterpreted " if "uninterp" in l else "axiom ") + m.group(1))
        m = re.search(r"assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]", l)
        if m:
            out.append("assumed specification " + m.group(1).strip())
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.lstrip().startswith("//"):
            out.append("assume/admit: " + l.strip()[:100])
    return sorted(set(out))


# ------------------------------------------------------------------------------------ the search
def search(prop, seed, secs, out, dictfile, threads=THREADS):
    cmd = [HARNESS, "search", prop, "--seed", str(seed), "--secs", str(secs), "--threads", str(threads), "--out", out, "--dict", dictfile]
    code, o, e = run(cmd, secs + 120)
    line = next((l for l in reversed(o.split("\n")) if l.startswith("{")), None)
    if code in (0, 1) and line:
        return json.loads(line)
    if code is None:
        return dict(found=False, broken="the search does not come to an end", evaluations=0, distinct_nontrivial=0, samples=[])
    # the process died (abort, stack overflow, out of memory): which case was it?
    return dict(found=False, crashed=True, broken=f"the search ended with {code}: {e.strip()[-300:]}", evaluations=0, distinct_nontrivial=0, samples=[])


def trust(seed, secs, dictfile):
    """the assumed contracts, tested on the real functions (bounded; says nothing about scribe)"""
    code, o, e = run([HARNESS, "trust", "--seed", str(seed), "--secs", str(secs), "--dict", dictfile], secs + 100)
    line = next((l for l in reversed(o.split("\n")) if l.startswith("{")), None)
    return json.loads(line) if line else dict(runs={}, failures=[f"the test of the assumed contracts ended with {code}"])


def trace_crash(prop, seed, out, dictfile):
    """one thread, the case being written down as it is made: the process dies again, and the file holds the case"""
    trace = out + ".trace"
    run([HARNESS, "search", prop, "--seed", str(seed), "--secs", "60", "--threads", "1", "--out", out, "--dict", dictfile, "--trace", trace], 120)
    try:
        case = json.load(open(trace))
    except (OSError, ValueError):
        return None
    json.dump(dict(property=prop, kind="input", case=case, what="the process dies"), open(out, "w"))
    code, o, e = run([HARNESS, "replay", prop, out], 60)
    return out if code not in (0, 1, 2, 3, None) else None


# ------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines `finding: property=<id> replay=<file below /verif> <what fails>`; (`fixed:` lines suppress nothing)"""
    r = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((os.path.join(HERE, m.group(2)), m.group(3)))
    except OSError:
        pass
    return r


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in propmap.ALL:
        say(f"usage: check.py PROPERTY   ({' '.join(propmap.ALL)})")
        return 2
    prop = sys.argv[1]
    tier = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
    thorough = tier == "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    work = os.path.join(HERE, "build", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    replay = os.path.join(work, "replay.json")

    ok, err = build("extract")
    if not ok:
        say("the extractor does not build:\n" + err[-2000:])
        return 2
    harness_ok, herr = build("harness")
    if not harness_ok:
        say("note: the bounded search does not build against this tree: " + "\n".join(l for l in herr.splitlines() if l.startswith("error"))[:800])

    # -------- proof
    proof = Proof(work, thorough, seed)
    proof.run()
    fns = proof.functions
    direct = propmap.direct(prop, fns) if fns else set()
    clos = propmap.closure(prop, fns) if fns else set()
    try:
        base = json.load(open(os.path.join(HERE, "contracts/baseline.json")))
    except OSError:
        base = {}
    by_key = {f["key"]: f for f in fns}
    gone = sorted(k for k in direct if k not in by_key)
    failed = [d for d in proof.errors if d["key"] is None or d["key"] in clos]
    if prop == "C05":
        safe = [d for d in failed if propmap.safety_relevant(d["message"]) or (d["key"] or "").startswith("GapBuffer::") or "lemmas" in (d["key"] or "")]
        failed_for_alarm = safe
    else:
        failed_for_alarm = failed
    opaque = sorted(k for k in proof.opaque - {THEOREMS} if k in clos or prop == "C05")
    problems = [p for p in proof.mapping.get("problems", [])] if proof.mapping else []
    undecided = []
    if proof.fatal:
        undecided.append(proof.fatal)
    undecided += [f"{k}: its contract is assumed, not proved" for k in opaque]
    undecided += [f"{k}: its loops have no invariants that fit" for k in sorted(proof.noloops - proof.opaque) if k in clos]
    undecided += [f"{k}: a RefCell guard may still be alive when the content is borrowed again" for k in proof.mapping.get("guards", []) if k in clos or k not in by_key]
    undecided += [f"{k} has a contract, and is not in the sources any more" for k in gone]
    undecided += [p for p in problems if not p.startswith("lost anchor")]

    proved = not failed and not undecided
    obligations = {u: v for u, v in proof.units.items() if unit_key(u, fns) in clos or unit_key(u, fns) == "prelude"}
    discharged = {u for u, v in obligations.items() if v[1] and not any(d["key"] == unit_key(u, fns) and not (d["key"] or "").startswith("lemmas") for d in proof.errors)}

    # -------- vacuity: every function's precondition can be met, and every function is really checked
    probe = None
    if thorough and not proof.fatal:
        probe = vacuity(work, clos)
        if probe["vacuous"]:
            say("the vacuity probe accepts a false assertion in: " + ", ".join(probe["vacuous"]))
            return 2

    # -------- bounded search on the real crate
    dictfile = os.path.join(work, "dict.json")
    json.dump(proof.mapping.get("literals", {}), open(dictfile, "w"))
    searches = []
    violation = None
    nofound = False
    if harness_ok:
        plan = [(seed, 300.0)] if thorough else [(seed, 8.0)]
        if not proved:
            plan = [(seed, 20.0), (seed + 1, 50.0 if not thorough else 300.0), (seed + 2, 50.0), (seed + 3, 120.0)]
        for s, secs in plan:
            if s == seed + 3 and time.time() - T0 > 420:
                break
            r = search(prop, s, secs, replay, dictfile)
            searches.append(dict(r, seed=s))
            if r.get("found"):
                violation = (replay, r.get("detail", ""))
                break
            if r.get("crashed") and prop in ("C05",) or r.get("crashed") and not proved:
                c = trace_crash(prop, s, replay, dictfile)
                if c:
                    violation = (c, "the process dies")
                    break
            if r.get("broken"):
                say("note: " + r["broken"])
    trusted = trust(seed, 60.0 if thorough else 1.0, dictfile) if harness_ok else None
    if trusted and trusted["failures"]:
        say("note: an assumed contract does not describe the function it stands for: " + "; ".join(trusted["failures"])[:600])
    known = []
    for f, what in known_findings(prop):
        code = run([HARNESS, "replay", prop, f], 60)[0] if harness_ok else None
        if code == 1:
            known.append(what)
            say(f"KNOWN-FINDING: property={prop} {what}")
            if violation and json.load(open(violation[0])).get("case") == json.load(open(f)).get("case"):
                violation = None

    # -------- the verdict
    if violation and failed:
        # the input that was found goes together with the obligations that failed
        r = json.load(open(violation[0]))
        r["failed_obligations"] = [dict(function=d["key"], obligation=d["message"].splitlines()[0], contract=[x[3] for x in proof.labels if x[0] in {s["line_start"] for s in d["spans"]}], verifier_output=d["rendered"]) for d in failed][:8]
        json.dump(r, open(violation[0], "w"), indent=1, ensure_ascii=False)
    if not violation and failed_for_alarm:
        strong = [d for d in failed_for_alarm if d["key"] in direct and decisive(d, proof, base)]
        if strong and not proof.fatal:
            nofound = True
            d = strong[0]
            json.dump(dict(property=prop, kind="obligation", function=d["key"], source_line=by_key[d["key"]]["src_line"], obligation=d["message"], verifier_output=[x["rendered"] for x in strong][:8],
                           contract=[x[3] for x in proof.labels if x[0] in {s["line_start"] for s in d["spans"]}], checker_cmd=proof.cmds[-1]), open(replay, "w"), indent=1)
            violation = (replay, f"{d['key']}: {d['message']}")

    for n in proof.notes:
        say("note: " + n)
    if proof.dropped_hints:
        say(f"note: {proof.dropped_hints} proof hints did not hold any more and were removed; the obligations were tried without them")
    if proved:
        say(f"{prop}: proved: {len(discharged)} of {len(obligations)} proof units discharged, {len([k for k in clos if not k.startswith('lemmas')])} functions under contract")
    else:
        for d in failed[:8]:
            say(f"{prop}: not discharged: {d['key']}: {d['message'].splitlines()[0]} (line {d['line']} of {os.path.join(work, 'scribe.rs')})")
        for u in undecided[:8]:
            say(f"{prop}: undecided by proof: {u}")
    ev = sum(s.get("evaluations", 0) for s in searches)
    say(f"{prop}: bounded search on the real crate: {ev} scripts, {sum(s.get('distinct_nontrivial', 0) for s in searches)} distinct and non-trivial")

    # -------- evidence
    text = open(os.path.join(work, "scribe.rs")).read() if os.path.exists(os.path.join(work, "scribe.rs")) else ""
    labels = [x for x in proof.labels if x[1] in clos]
    per = lambda kind: len([x for x in labels if x[2].startswith(kind)])
    status = "violated" if violation else "proved" if proved else "bounded only (not proved)"
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - T0, 2), violations=1 if violation else 0,
        assumptions=ASSUMPTIONS,
        coverage=dict(
            status=status, obligations=len(obligations), discharged=len(discharged), checker_cmd=proof.cmds[0] if proof.cmds else "none",
            backend="Verus 0.2026.09.13 with its bundled Z3",
            trusted_base=trusted_base(text),
            functions_under_contract=sorted(k for k in clos if by_key[k]["status"] == "verified" and not k.startswith("lemmas of ")),
            functions_stating_the_property=sorted(direct),
            functions_assumed=opaque, undecided=undecided,
            functions_in_sources=proof.mapping.get("source_functions", 0), inlined=proof.mapping.get("inlined", []),
            spec_lines=dict(contract=per("contract"), loop=per("loop"), proof_hints=per("proof at"), lemmas=per("lemma")),
            not_discharged=[f"{d['key']}: {d['message'].splitlines()[0]}" for d in failed],
            solver_ms=proof.solver_ms, closure_solver_ms=round(sum(v[2] for v in obligations.values()) / 1000, 1), verifier_wall_s=round(proof.wall, 2),
            extraction_rules=proof.mapping.get("rules", {}), extraction_problems=problems,
            vacuity_probe=probe if probe else "thorough tier only",
            assumed_contracts_tested=dict(
                label="bounded, never counted as proved: the contracts under trusted_base, restated as checks on the real std, unicode-segmentation and syntect functions and run on generated inputs (harness/src/trust.rs)",
                contracts=len(trusted["runs"]) if trusted else 0, evaluations=sum(trusted["runs"].values()) if trusted else 0, failures=trusted["failures"] if trusted else [],
                runs=trusted["runs"] if trusted else {}),
            bounded_search=dict(
                label="bounded, never counted as proved: seeded scripts on the real crate against a reference model; it validates the trusted contracts and finds inputs for failed obligations",
                runs=[{k: s.get(k) for k in ("seed", "secs", "threads", "evaluations", "distinct_nontrivial", "other_mismatches", "found", "broken") if s.get(k) is not None} for s in searches],
                samples=(searches[0].get("samples") or [])[:3] if searches else []),
        ))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, ensure_ascii=False)

    if violation:
        say(f"{prop}: {violation[1][:600]}")
        say(f"VIOLATION property={prop} replay={violation[0]}" + (" no-failing-input-found" if nofound else ""))
        return 1
    if not proved:
        if not harness_ok or all(s.get("broken") for s in searches):
            say(f"{prop}: neither the proof nor the bounded search could decide")
            return 2
        say(f"{prop}: UNDECIDED by proof on this tree; the bounded stand-in found no failing input")
    return 0


def vacuity(work, clos):
    """assert(false) at the start of every function: the verifier must refuse each one"""
    w = os.path.join(work, "probe")
    p = Proof(w, True, 0)
    os.makedirs(w, exist_ok=True)
    if p.extract(["--must-fail"]):
        return dict(probed=0, vacuous=[])
    code, res, diags = p.verus()
    keys = {d["key"] for d in diags}
    probed = [f["key"] for f in p.functions if f["status"] == "verified" and not f["key"].startswith(("lemmas of ", "DynOperation::"))]
    return dict(probed=len(probed), refused=len([k for k in probed if k in keys]), vacuous=[k for k in probed if k not in keys and k in clos])


ASSUMPTIONS = [
    "The verifier (Verus, rustc front end, Z3) is sound.",
    "The extractor's rewrite rules (listed with their use counts under extraction_rules, explained in DESIGN.md) keep the meaning of the functions.",
    "The contracts of external functions (listed under trusted_base: std string, vector, path and file functions, unicode-segmentation's cluster boundaries, syntect's parsing and syntax lookup) describe what they do.",
    "Stand-ins for functions of std (vx_… and the types Lst, ByteVec, CellHandle, VxFormatter, CowStr, PathBuf in contracts/prelude_*.rs): most have bodies, which are proved to keep the contracts on every run, so that the contracts can be kept; that std's own functions keep them is assumed (and tested, see assumed_contracts_tested).",
    "RefCell: no guard that outlives its last use is in the way of a later borrow. The extractor checks this on every run, by name and scope (guards.rs); the checking itself is not a deduction of the verifier.",
    "Strings are shorter than isize::MAX bytes, and no position's line or offset is usize::MAX (stated as preconditions).",
    "A file does not change between the calls a single operation makes on it, and a successful write stores what was written.",
    "Change callbacks do not change the buffer that calls them (through the handle that its cursor exposes).",
]

if __name__ == "__main__":
    sys.exit(main())

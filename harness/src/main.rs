//! vx-harness: executes the real scribe crate against a reference model.
//!   search <property> --seed N --secs T [--threads K] --out FILE   look for an input that violates the property
//!   replay <property> FILE                                        run a replay file
//!   trust --seed N --secs T                                       test the assumed contracts on the real functions
//! `search` prints one line of JSON; `replay` exits 1 when the file's case violates the property.
mod case;
mod gen;
mod model;
mod run;
mod trust;

use case::*;
use gen::*;
use run::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::temp_dir().join(format!("vx-harness-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&base);
        std::fs::create_dir_all(&base).unwrap();
        let base = base.canonicalize().unwrap();
        std::env::set_current_dir(&base).unwrap();
        Scratch(base)
    }
    fn sub(&self, n: &str) -> PathBuf { let d = self.0.join(n); std::fs::create_dir_all(&d).unwrap(); d }
    fn remove(&self) { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(&self.0); }
}

fn generate(prop: &str, r: &mut Rng, k: u64, thread: u64, dir: &Path, sh: &Shared) -> Result<(), Mis> {
    let set = |c: Case| { let mut g = sh.lock().unwrap(); g.ticks += 1; g.labels = vec![]; g.case = Some(c); };
    let kind = match prop {
        "C16" => 2, "C17" => if r.chance(9, 10) { 3 } else { 5 }, "C18" => 4, "C19" | "C20" | "C21" => 5,
        "C01" | "C02" | "C03" | "C04" => if r.chance(1, 3) { 1 } else { 0 },
        "C05" => match r.below(20) { 0..=12 => 0, 13..=17 => 1, 18 => 2, _ => 3 },
        _ => 0,
    };
    match kind {
        0 => {
            let mut g = BufGen::new(r, prop);
            let load = if g.r.chance(2, 5) || matches!(prop, "C14" | "C09") { Some(g.a.text(g.r)) } else { None };
            let cb = prop == "C13" || g.r.chance(1, 3);
            set(Case::Buf { load: load.clone(), cb, ops: vec![] });
            run_buf(&load, cb, &mut g, dir, sh).map(|_| ())
        }
        1 => {
            let a = Alphabet::new(r);
            let init = a.text(r);
            let long = r.chance(1, 30);
            let left = 2 + r.below(if long { 300 } else { 25 });
            set(Case::Gap { init: init.clone(), ops: vec![] });
            run_gap(&init, &mut GapGen { r, a, left }, sh)
        }
        2 => {
            let t = match enumerated((k * 64 + thread) as usize) { Some(t) if thread < 64 => t, _ => { let a = Alphabet::new(r); if r.chance(1, 1000) { a.giant(r) } else { a.text(r) } } };
            let c = Case::Lines { text: t };
            run_case(&c, dir, sh)
        }
        3 => {
            let a = Alphabet::new(r);
            let n = if r.chance(2, 3) { 3 } else { SYNTAXES.len() };
            let syntax = SYNTAXES[r.below(n)].to_string();
            let text = token_text(r, &a, n == 3);
            run_case(&Case::Tokens { text, syntax }, dir, sh)
        }
        4 => { let a = Alphabet::new(r); let c = algebra(r, &a); run_case(&c, dir, sh) }
        _ => {
            let custom = r.chance(1, 12);
            set(Case::Ws { custom, ops: vec![] });
            let mut g = WsGen::new(r);
            run_ws(custom, &mut g, dir, sh)
        }
    }
}

/// runs a case in a thread of its own; None: it does not come to an end
fn attempt(c: &Case, dir: &Path, secs: u64) -> Option<Result<(), Mis>> {
    let sh = shared();
    attempt_in(c, dir, secs, &sh)
}
fn attempt_in(c: &Case, dir: &Path, secs: u64, sh: &Shared) -> Option<Result<(), Mis>> {
    let (tx, rx) = mpsc::channel();
    let (c, dir, sh) = (c.clone(), dir.to_path_buf(), sh.clone());
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = tx.send(run_case(&c, &dir, &sh)); }).unwrap();
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

fn shrink(c: Case, prop: &str, dir: &Path) -> (Case, Mis) {
    let end = Instant::now() + Duration::from_secs(6);
    let fails = |c: &Case| -> Option<Mis> { match attempt(c, dir, 3)? { Err(m) if m.labels.contains(&prop) => Some(m), _ => None } };
    let mut best = c;
    let mut mis = match fails(&best) { Some(m) => m, None => return (best, Mis::new(&[], "not reproduced".into())) };
    let mut again = true;
    while again && Instant::now() < end {
        again = false;
        let mut n = best.len().max(1) / 2;
        while n >= 1 && best.len() > 1 {
            let mut a = 0;
            while a < best.len() && Instant::now() < end {
                let c = best.without(a, n);
                if c.len() < best.len() { if let Some(m) = fails(&c) { best = c; mis = m; again = true; continue; } }
                a += n;
            }
            if n == 1 { break; }
            n /= 2;
        }
        let mut k = 0;
        while k < best.texts().len() && Instant::now() < end {
            let chars: Vec<char> = best.texts()[k].chars().collect();
            let mut n = chars.len();
            let mut cur = chars;
            while n >= 1 {
                let mut a = 0;
                while a < cur.len() && Instant::now() < end {
                    let t: Vec<char> = cur.iter().enumerate().filter(|(i, _)| *i < a || *i >= a + n).map(|(_, c)| *c).collect();
                    let c = best.with_text(k, &t.iter().collect::<String>());
                    if let Some(m) = fails(&c) { best = c; mis = m; cur = t; again = true; } else { a += n; }
                }
                n /= 2;
            }
            k += 1;
        }
    }
    (best, mis)
}

fn write_replay(out: &str, prop: &str, c: &Case, what: &str) {
    let j = serde_json::json!({ "property": prop, "kind": "input", "case": c, "what": what });
    let _ = std::fs::write(out, serde_json::to_string_pretty(&j).unwrap());
}
fn sample(c: &Case) -> String { let s = serde_json::to_string(c).unwrap(); if s.len() > 600 { let mut i = 600; while !s.is_char_boundary(i) { i -= 1; } format!("{}...", &s[..i]) } else { s } }

fn arg(args: &[String], name: &str, default: &str) -> String { args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| default.into()) }

fn search(args: &[String]) -> i32 {
    let prop: &'static str = Box::leak(args[0].clone().into_boxed_str());
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let secs: f64 = arg(args, "--secs", "8").parse().unwrap();
    let threads: u64 = arg(args, "--threads", "4").parse().unwrap();
    let out = arg(args, "--out", "/dev/null");
    let out = if out.starts_with('/') { out } else { std::env::current_dir().unwrap().join(out).to_string_lossy().into_owned() };
    let trace = arg(args, "--trace", "");
    if !trace.is_empty() { let _ = TRACE.set(PathBuf::from(trace)); }
    load_dict(&arg(args, "--dict", ""));
    let scratch = Scratch::new();
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let distinct = Arc::new(AtomicU64::new(0));
    let others = Arc::new(AtomicU64::new(0));
    let nth = Arc::new(AtomicU64::new(0));
    let samples = Arc::new(Mutex::new(Vec::<String>::new()));
    let (tx, rx) = mpsc::channel::<(Case, Mis)>();
    let mut lives = vec![];
    for t in 0..threads {
        let sh = shared();
        lives.push(sh.clone());
        let (stop, evals, distinct, others, samples, tx, nth) = (stop.clone(), evals.clone(), distinct.clone(), others.clone(), samples.clone(), tx.clone(), nth.clone());
        let dir = scratch.sub(&format!("t{t}"));
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut seen: HashSet<u64> = HashSet::new();
            let mut k = 0u64;
            REUSE.set(true);
            while !stop.load(Ordering::Relaxed) {
                let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t).wrapping_mul(1_000_033).wrapping_add(k));
                let n = nth.fetch_add(1, Ordering::Relaxed);
                let res = generate(prop, &mut r, n / 64, n % 64, &dir, &sh);
                k += 1;
                evals.fetch_add(1, Ordering::Relaxed);
                let c = sh.lock().unwrap().case.clone();
                if let Some(c) = &c {
                    let mut h = DefaultHasher::new();
                    format!("{c:?}").hash(&mut h);
                    if seen.insert(h.finish()) {
                        let trivial = match c { Case::Buf { ops, .. } => !ops.iter().any(|o| matches!(o, Op::Ins(s) | Op::Replace(s) if !s.is_empty())), Case::Gap { ops, .. } => ops.len() < 2, Case::Ws { ops, .. } => ops.len() < 3, Case::Lines { text } | Case::Tokens { text, .. } => text.is_empty(), Case::Algebra { .. } => false };
                        if !trivial { distinct.fetch_add(1, Ordering::Relaxed); }
                    }
                    if k == 3 || k == 40 { samples.lock().unwrap().push(sample(c)); }
                }
                if let Err(mut m) = res {
                    if let (Some(c @ Case::Ws { .. }), true) = (&c, m.labels.contains(&prop)) {
                        // once more, in a workspace of its own
                        REUSE.set(false);
                        let again = run_case(c, &dir, &sh);
                        REUSE.set(true);
                        match again { Err(x) => m = x, Ok(()) => { others.fetch_add(1, Ordering::Relaxed); continue; } }
                        sh.lock().unwrap().case = Some(c.clone());
                    }
                    if m.labels.contains(&prop) { if let Some(c) = c { let _ = tx.send((c, m)); } return; }
                    others.fetch_add(1, Ordering::Relaxed);
                    if others.load(Ordering::Relaxed) < 3 { samples.lock().unwrap().push(format!("other: {} {}", m.what, c.as_ref().map(sample).unwrap_or_default())); }
                }
            }
        }).unwrap();
    }
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); threads as usize];
    let mut found: Option<(Case, Mis)> = None;
    let mut hung = false;
    while found.is_none() {
        match rx.recv_timeout(Duration::from_millis(100)) { Ok(f) => { found = Some(f); break; } Err(_) => {} }
        for (i, sh) in lives.iter().enumerate() {
            if let Ok(g) = sh.try_lock() {
                if g.ticks != last[i].0 { last[i] = (g.ticks, Instant::now()); }
                else if last[i].1.elapsed() > Duration::from_secs(20) && g.case.is_some() {
                    let mut l = g.labels.clone();
                    l.push("C05");
                    hung = true;
                    if l.contains(&prop) { found = Some((g.case.clone().unwrap(), Mis { labels: l, what: "does not come to an end".into() })); }
                }
            }
        }
        let stuck = last.iter().any(|l| l.1.elapsed() > Duration::from_secs(3));
        if Instant::now() > end && (!stuck || hung) { break; }
    }
    stop.store(true, Ordering::Relaxed);
    let mut detail = String::new();
    let mut is_found = false;
    if let Some((c, m)) = found {
        is_found = true;
        let dir = scratch.sub("shrink");
        let (c, m) = if hung { (c, m) } else {
            let (b, s) = shrink(c.clone(), prop, &dir);
            if s.labels.is_empty() { (c, m) } else { (b, s) }
        };
        detail = m.what.clone();
        write_replay(&out, prop, &c, &m.what);
    }
    let j = serde_json::json!({ "found": is_found, "detail": detail, "evaluations": evals.load(Ordering::Relaxed), "distinct_nontrivial": distinct.load(Ordering::Relaxed),
        "other_mismatches": others.load(Ordering::Relaxed), "samples": *samples.lock().unwrap(), "threads": threads, "seed": seed, "secs": secs });
    println!("{j}");
    scratch.remove();
    if is_found { 1 } else { 0 }
}

fn replay(args: &[String]) -> i32 {
    let prop = &args[0];
    let text = std::fs::read_to_string(&args[1]).expect("replay file");
    let j: serde_json::Value = serde_json::from_str(&text).expect("replay file");
    if j["kind"] == "obligation" {
        println!("this file names a failed proof obligation and has no failing input:\n{}", j["obligation"].as_str().unwrap_or(""));
        return 2;
    }
    let c: Case = serde_json::from_value(j["case"].clone()).expect("case");
    let scratch = Scratch::new();
    let dir = scratch.sub("replay");
    let r = attempt(&c, &dir, 20);
    scratch.remove();
    match r {
        None => { println!("{prop} violated: the case does not come to an end"); 1 }
        Some(Err(m)) if m.labels.iter().any(|l| l == prop) => { println!("{prop} violated: {}", m.what); 1 }
        Some(Err(m)) => { println!("a different mismatch: {:?} {}", m.labels, m.what); 3 }
        Some(Ok(())) => { println!("the case runs as expected"); 0 }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var("VX_PANICS").is_ok() { eprintln!("{i}"); } }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("search") if args.len() > 1 => search(&args[1..]),
        Some("trust") => {
            let scratch = Scratch::new();
            let (seed, secs) = (arg(&args, "--seed", "1").parse().unwrap(), arg(&args, "--secs", "2").parse().unwrap());
            load_dict(&arg(&args, "--dict", ""));
            let dir = scratch.sub("trust");
            let l = std::panic::catch_unwind(|| trust::trust(seed, secs, &dir));
            scratch.remove();
            match l {
                Ok(l) => { println!("{}", serde_json::json!({ "runs": l.runs, "failures": l.failures })); if l.failures.is_empty() { 0 } else { 1 } }
                Err(_) => { println!("{}", serde_json::json!({ "runs": {}, "failures": ["the test of the contracts panicked"] })); 1 }
            }
        }
        Some("replay") if args.len() > 2 => replay(&args[1..]),
        _ => { eprintln!("usage: vx-harness search PROPERTY [--seed N] [--secs T] [--threads K] [--out FILE] | replay PROPERTY FILE"); 2 }
    };
    std::process::exit(code);
}

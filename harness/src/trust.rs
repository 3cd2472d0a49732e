//! Bounded tests of the contracts the proof assumes: every assumed statement about std, unicode-segmentation and
//! syntect (contracts/prelude_*.rs) is restated here as a check on the real function, and run on generated inputs.
//! Nothing here is a proof, and nothing here judges scribe: a failure says that an assumption is wrong.
use crate::gen::{Alphabet, Rng};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use syntect::parsing::{ParseState, ScopeStack, ScopeStackOp, SyntaxSet};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Default)]
pub struct Log { pub runs: BTreeMap<&'static str, u64>, pub failures: Vec<String> }
impl Log {
    fn check(&mut self, name: &'static str, ok: bool, what: impl FnOnce() -> String) {
        *self.runs.entry(name).or_insert(0) += 1;
        if !ok && self.failures.len() < 20 { self.failures.push(format!("{name}: {}", what())); }
    }
}

// ---------------------------------------------------------------- the specifications, executable
fn boundary(t: &[u8], i: usize) -> bool { i <= t.len() && (i >= t.len() || t[i] & 0xc0 != 0x80) }
fn clusters(t: &str) -> Vec<Vec<u8>> { UnicodeSegmentation::graphemes(t, true).map(|g| g.as_bytes().to_vec()).collect() }
fn next_lf(t: &[u8], mut i: usize) -> usize { while i < t.len() && t[i] != 10 { i += 1; } i }
fn pieces_of(mut t: &[u8]) -> Vec<Vec<u8>> { let mut v = vec![]; loop { let e = next_lf(t, 0); if e < t.len() { v.push(t[..e].to_vec()); t = &t[e + 1..]; } else { v.push(t.to_vec()); return v; } } }
fn strip_cr(l: &[u8]) -> Vec<u8> { if l.last() == Some(&13) { l[..l.len() - 1].to_vec() } else { l.to_vec() } }
fn lines_of(mut t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    loop {
        if t.is_empty() { return v; }
        let e = next_lf(t, 0);
        if e < t.len() { v.push(strip_cr(&t[..e])); t = &t[e + 1..]; } else { v.push(t.to_vec()); return v; }
    }
}
/// encode_scalar of vstd::utf8
fn encode(c: u32) -> Vec<u8> {
    match c { 0..=0x7f => vec![c as u8], 0x80..=0x7ff => vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 0x3f) as u8],
        0x800..=0xffff => vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3f) as u8, 0x80 | (c & 0x3f) as u8],
        _ => vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 0x3f) as u8, 0x80 | (c >> 6 & 0x3f) as u8, 0x80 | (c & 0x3f) as u8] }
}
fn encode_all(c: impl Iterator<Item = char>) -> Vec<u8> { c.flat_map(|c| encode(c as u32)).collect() }
fn ends(t: &[u8], p: &[u8]) -> bool { p.len() <= t.len() && &t[t.len() - p.len()..] == p }
fn starts(t: &[u8], p: &[u8]) -> bool { p.len() <= t.len() && &t[..p.len()] == p }

struct Shown<'a>(Vec<&'a str>, bool);
impl fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for s in &self.0 { if self.1 { write!(f, "{}", Cow::Borrowed(*s))?; } else { f.write_str(s)?; } } Ok(()) }
}

/// the operations of the list iterators, against the list
fn list<T: PartialEq + fmt::Debug, I: Iterator<Item = T>>(log: &mut Log, r: &mut Rng, name: &'static str, all: Vec<T>, mk: impl Fn() -> I) {
    let (k, n) = (r.below(all.len() + 2), r.below(all.len() + 3));
    let at = || { let mut i = mk(); for _ in 0..k { i.next(); } i };
    let rest = &all[k.min(all.len())..];
    let mut i = mk();
    let mut same = true;
    for x in &all { same &= i.next().as_ref() == Some(x); }
    same &= i.next().is_none();
    same &= at().count() == rest.len() && at().last().as_ref() == rest.last();
    let mut i = at();
    same &= i.nth(n).as_ref() == rest.get(n) && i.collect::<Vec<T>>().as_slice() == rest.get(n + 1..).unwrap_or(&[]);
    same &= at().skip(n).collect::<Vec<T>>().as_slice() == &rest[n.min(rest.len())..] && at().take(n).collect::<Vec<T>>().as_slice() == &rest[..n.min(rest.len())];
    let e: Vec<(usize, T)> = mk().enumerate().collect();
    same &= e.len() == all.len() && e.iter().enumerate().all(|(i, x)| x.0 == i && x.1 == all[i]);
    log.check(name, same, || format!("{all:?} k={k} n={n}"));
}
fn back<T: PartialEq + fmt::Debug, I: DoubleEndedIterator<Item = T>>(log: &mut Log, r: &mut Rng, all: Vec<T>, mk: impl Fn() -> I) {
    let k = r.below(all.len() + 2);
    let mut i = mk(); for _ in 0..k { i.next(); }
    let got: Vec<T> = i.rev().collect();
    log.check("Lst::rev", got.iter().eq(all[k.min(all.len())..].iter().rev()), || format!("{all:?} k={k}"));
}

fn texts(log: &mut Log, r: &mut Rng, a: &Alphabet) {
    let t = a.text(r);
    let b = t.as_bytes();
    let g = clusters(&t);
    // clusters
    let mut at = 0;
    let mut ok = g.concat() == b;
    for x in &g { ok &= !x.is_empty() && boundary(b, at); at += x.len(); }
    log.check("axiom_graphemes_partition", ok && boundary(b, at), || format!("{t:?}"));
    log.check("axiom_graphemes_newline", g.iter().all(|x| !x.contains(&10) || x == b"\n" || x == b"\r\n"), || format!("{t:?}"));
    let ascii: String = (0..r.below(9)).map(|_| if r.chance(1, 3) { *r.pick(&['\r', '\n', '\t', '\0', '\x7f', '\x1b']) } else { r.below(128) as u8 as char }).collect();
    if !ascii.contains("\r\n") { log.check("axiom_graphemes_ascii", clusters(&ascii).iter().all(|g| g.len() == 1), || format!("{ascii:?}")); }
    let (x, y) = (a.small(r), a.text(r));
    for nl in ["\n", "\r\n"] {
        if nl == "\n" && x.ends_with('\r') { continue; }
        let want = [clusters(&x), vec![nl.as_bytes().to_vec()], clusters(&y)].concat();
        log.check("axiom_graphemes_split", clusters(&format!("{x}{nl}{y}")) == want, || format!("{x:?} {nl:?} {y:?}"));
    }
    let mut p = 0;
    let want: Vec<(usize, &str)> = g.iter().map(|x| { let q = p; p += x.len(); (q, &t[q..p]) }).collect();
    list(log, r, "grapheme_indices", want, || t.grapheme_indices(true));
    list(log, r, "graphemes", g.iter().map(|x| std::str::from_utf8(x).unwrap()).collect(), || UnicodeSegmentation::graphemes(t.as_str(), true));
    // characters
    log.check("vx_chars", encode_all(t.chars()) == b, || format!("{t:?}"));
    list(log, r, "vx_chars", t.chars().collect::<Vec<char>>(), || t.chars());
    list(log, r, "vx_bytes", b.to_vec(), || t.bytes());
    let ci: Vec<(usize, char)> = t.char_indices().collect();
    log.check("vx_char_indices", encode_all(ci.iter().map(|x| x.1)) == b && (0..ci.len()).all(|i| ci[i].0 == encode_all(ci[..i].iter().map(|x| x.1)).len()), || format!("{t:?}"));
    list(log, r, "vx_char_indices", ci, || t.char_indices());
    back(log, r, t.chars().collect::<Vec<char>>(), || t.chars());
    back(log, r, t.char_indices().collect::<Vec<_>>(), || t.char_indices());
    back(log, r, t.lines().collect::<Vec<_>>(), || t.lines());
    back(log, r, UnicodeSegmentation::graphemes(t.as_str(), true).collect::<Vec<_>>(), || UnicodeSegmentation::graphemes(t.as_str(), true));
    back(log, r, t.grapheme_indices(true).collect::<Vec<_>>(), || t.grapheme_indices(true));
    // lines
    log.check("vx_lines", t.lines().map(|l| l.as_bytes().to_vec()).collect::<Vec<_>>() == lines_of(b), || format!("{t:?}"));
    log.check("vx_split", t.split('\n').map(|l| l.as_bytes().to_vec()).collect::<Vec<_>>() == pieces_of(b), || format!("{t:?}"));
    list(log, r, "vx_lines", t.lines().collect::<Vec<_>>(), || t.lines());
    list(log, r, "vx_split", t.split('\n').collect::<Vec<_>>(), || t.split('\n'));
    // slices
    for _ in 0..4 {
        let (i, j) = (r.below(b.len() + 2), if r.chance(1, 3) { b.len() } else { r.below(b.len() + 2) });
        log.check("vx_is_char_boundary", t.is_char_boundary(i) == boundary(b, i), || format!("{t:?} {i}"));
        let ok = i <= j && j <= b.len() && boundary(b, i) && boundary(b, j);
        log.check("vx_get_range", t.get(i..j).map(|s| s.as_bytes()) == if ok { Some(&b[i..j]) } else { None }, || format!("{t:?} {i} {j}"));
        log.check("vx_get_from", t.get(i..).map(|s| s.as_bytes()) == if i <= b.len() && boundary(b, i) { Some(&b[i..]) } else { None }, || format!("{t:?} {i}"));
        if ok { log.check("vx_slice", t[i..j].as_bytes() == &b[i..j] && t[i..].as_bytes() == &b[i..] && t[..j].as_bytes() == &b[..j], || format!("{t:?} {i} {j}")); }
    }
    // ends
    let pat = if r.chance(1, 2) && !t.is_empty() { let k = t.char_indices().map(|x| x.0).nth(r.below(t.chars().count())).unwrap(); t[k..].to_string() } else { a.small(r) };
    let pre = if r.chance(1, 2) { t.chars().take(r.below(5)).collect::<String>() } else { a.small(r) };
    let strip = |x: Option<&str>, p: &[u8]| x.map(|s| s.as_bytes().to_vec()) == if ends(b, p) { Some(b[..b.len() - p.len()].to_vec()) } else { None };
    log.check("vx_ends_with", t.ends_with(pat.as_str()) == ends(b, pat.as_bytes()) && t.ends_with(&pat) == ends(b, pat.as_bytes()), || format!("{t:?} {pat:?}"));
    log.check("vx_starts_with", t.starts_with(pre.as_str()) == starts(b, pre.as_bytes()) && t.starts_with(&pre) == starts(b, pre.as_bytes()), || format!("{t:?} {pre:?}"));
    log.check("vx_strip_suffix", strip(t.strip_suffix(pat.as_str()), pat.as_bytes()), || format!("{t:?} {pat:?}"));
    for c in ['\n', '\r', 'a', 'é', t.chars().last().unwrap_or('x'), pre.chars().next().unwrap_or('y')] {
        let e = encode(c as u32);
        log.check("vx_ends_with", t.ends_with(c) == ends(b, &e), || format!("{t:?} {c:?}"));
        log.check("vx_starts_with", t.starts_with(c) == starts(b, &e), || format!("{t:?} {c:?}"));
        log.check("vx_strip_suffix", strip(t.strip_suffix(c), &e), || format!("{t:?} {c:?}"));
    }
    // conversions
    log.check("vx_from_utf8_lossy", String::from_utf8_lossy(b).into_owned().as_bytes() == b && <Cow<str> as std::borrow::Borrow<str>>::borrow(&String::from_utf8_lossy(b)).as_bytes() == b, || format!("{t:?}"));
    log.check("String::as_bytes, String::len", t.len() == b.len() && b == encode_all(t.chars()), || format!("{t:?}"));
    log.check("axiom_to_string", t.to_string() == t && t.as_str().to_string() == t, || format!("{t:?}"));
    log.check("<&str as PartialEq<String>>::eq", (pat.as_str() == t) == pat.chars().eq(t.chars()), || format!("{t:?} {pat:?}"));
    log.check("vx_write, vx_write_str, vx_into_string", Shown(vec![&t, &pat, &pre], true).to_string() == [&t, &pat, &pre].map(|s| s.as_str()).concat() && Shown(vec![&t, &pat, &pre], false).to_string() == [&t, &pat, &pre].map(|s| s.as_str()).concat(), || format!("{t:?}"));
    log.check("Default", usize::default() == 0 && !bool::default() && String::default().is_empty() && PathBuf::default() == PathBuf::new(), String::new);
}

/// std functions that the sources do not call (contracts/prelude_3_std.rs)
fn more(log: &mut Log, r: &mut Rng, a: &Alphabet) {
    let t = if r.chance(1, 2) { a.small(r) } else { a.text(r) };
    let b = t.as_bytes();
    let pat = match r.below(4) { 0 => a.small(r), 1 => String::new(), _ => t.chars().skip(r.below(4)).take(1 + r.below(3)).collect() };
    let p = pat.as_bytes();
    let at: Vec<usize> = (0..=b.len()).filter(|&i| i + p.len() <= b.len() && boundary(b, i) && &b[i..i + p.len()] == p).collect();
    let c = t.chars().nth(r.below(5)).unwrap_or('q');
    let e = encode(c as u32);
    let ac: Vec<usize> = (0..=b.len()).filter(|&i| i + e.len() <= b.len() && boundary(b, i) && b[i..i + e.len()] == e[..]).collect();
    log.check("vx_find", t.find(pat.as_str()) == at.first().copied() && t.find(&pat) == at.first().copied() && t.find(c) == ac.first().copied(), || format!("{t:?} {pat:?} {c:?}"));
    log.check("vx_rfind", t.rfind(pat.as_str()) == at.last().copied() && t.rfind(c) == ac.last().copied(), || format!("{t:?} {pat:?} {c:?}"));
    log.check("vx_contains", t.contains(pat.as_str()) == !at.is_empty() && t.contains(c) == !ac.is_empty(), || format!("{t:?} {pat:?} {c:?}"));
    log.check("vx_strip_prefix", t.strip_prefix(pat.as_str()).map(|x| x.as_bytes()) == if starts(b, p) { Some(&b[p.len()..]) } else { None } && t.strip_prefix(c).map(|x| x.as_bytes()) == if starts(b, &e) { Some(&b[e.len()..]) } else { None }, || format!("{t:?} {pat:?} {c:?}"));
    let n = r.below(4);
    let rep: Vec<u8> = (0..n).flat_map(|_| e.clone()).collect();
    let long = [&rep[..], b, &rep[..]].concat();
    let l = std::str::from_utf8(&long).unwrap();
    let cut = l.trim_end_matches(c).as_bytes();
    log.check("vx_trim_end_matches", starts(&long, cut) && (long.len() - cut.len()) % e.len() == 0 && long[cut.len()..].chunks(e.len()).all(|x| x == e) && !ends(cut, &e), || format!("{l:?} {c:?}"));
    let cut = l.trim_start_matches(c).as_bytes();
    log.check("vx_trim_start_matches", ends(&long, cut) && (long.len() - cut.len()) % e.len() == 0 && long[..long.len() - cut.len()].chunks(e.len()).all(|x| x == e) && !starts(cut, &e), || format!("{l:?} {c:?}"));
    log.check("vx_repeat", c.to_string().repeat(n).as_bytes() == rep, || format!("{c:?} {n}"));
    let i = r.below(b.len() + 1);
    if boundary(b, i) {
        let (x, y) = t.split_at(i);
        log.check("vx_split_at", x.as_bytes() == &b[..i] && y.as_bytes() == &b[i..], || format!("{t:?} {i}"));
        let mut u = t.clone();
        u.insert_str(i, &pat);
        log.check("String::insert_str", u.as_bytes() == [&b[..i], p, &b[i..]].concat(), || format!("{t:?} {i} {pat:?}"));
        let mut u = t.clone();
        u.truncate(i);
        log.check("String::truncate", u.as_bytes() == &b[..i], || format!("{t:?} {i}"));
        let mut u = t.clone();
        u.truncate(b.len() + n);
        log.check("String::truncate", u == t, || format!("{t:?}"));
    }
    // white space: the three agree on where it is only in that each is a part of the text at the end it says
    let (x, y, z) = (t.trim(), t.trim_start(), t.trim_end());
    log.check("vx_trim", t.contains(x) && t.ends_with(y) && t.starts_with(z), || format!("{t:?}"));
    log.check("vx_eq_ignore_ascii_case", t.eq_ignore_ascii_case(&pat) == (t.to_ascii_lowercase() == pat.to_ascii_lowercase()), || format!("{t:?} {pat:?}"));
    // lists
    let (v, w): (Vec<usize>, Vec<usize>) = ((0..r.below(6)).map(|_| r.below(9)).collect(), (0..r.below(6)).map(|_| r.below(9)).collect());
    let k = v.len().min(w.len());
    log.check("Lst::zip", v.iter().zip(w.iter()).map(|(x, y)| (*x, *y)).collect::<Vec<_>>() == (0..k).map(|i| (v[i], w[i])).collect::<Vec<_>>(), || format!("{v:?} {w:?}"));
    log.check("Lst::chain", v.iter().chain(w.iter()).copied().collect::<Vec<_>>() == [&v[..], &w[..]].concat(), || format!("{v:?} {w:?}"));
    if v.len() > 1 {
        let (i, j) = (r.below(v.len()), r.below(v.len()));
        let mut u = v.clone();
        u.swap(i, j);
        log.check("vx_swap", (0..v.len()).all(|q| u[q] == if q == i { v[j] } else if q == j { v[i] } else { v[q] }), || format!("{v:?} {i} {j}"));
    }
    // options, orderings, numbers
    let o = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(r.below(5)) };
    let (x, y) = (o(r), o(r));
    log.check("Option", x.and(y) == (if x.is_some() { y } else { None }) && x.xor(y) == match (x, y) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None }
        && x.zip(y) == match (x, y) { (Some(x), Some(y)) => Some((x, y)), _ => None } && x.as_ref().copied() == x && { let mut z = x; z.replace(3) == x && z == Some(3) } && x.ok_or(()).unwrap_or(7) == match x { Some(x) => x, None => 7 }, || format!("{x:?} {y:?}"));
    use std::cmp::Ordering::*;
    for f in [Less, Equal, Greater] {
        for g in [Less, Equal, Greater] { log.check("Ordering", f.then(g) == if f == Equal { g } else { f }, || format!("{f:?} {g:?}")); }
        log.check("Ordering", f.reverse() == (match f { Less => Greater, Equal => Equal, Greater => Less }) && f.is_lt() == (f == Less) && f.is_le() == (f != Greater) && f.is_gt() == (f == Greater) && f.is_ge() == (f != Less) && f.is_eq() == (f == Equal) && f.is_ne() == (f != Equal), || format!("{f:?}"));
    }
    let num = |r: &mut Rng| if r.chance(1, 2) { r.below(20) } else { usize::MAX - r.below(20) };
    let (x, y) = (num(r), num(r));
    let s = x as u128 + y as u128;
    log.check("usize", x.abs_diff(y) == (if x < y { y - x } else { x - y }) && x.overflowing_add(y) == ((s % (usize::MAX as u128 + 1)) as usize, s > usize::MAX as u128)
        && (y == 0 || (x.rem_euclid(y) == x % y && x.div_ceil(y) == if x % y == 0 { x / y } else { x / y + 1 })), || format!("{x} {y}"));
    log.check("char classes", c.is_ascii() == (c as u32 <= 0x7f) && c.is_ascii_digit() == ('0' <= c && c <= '9') && b.iter().all(|x| x.is_ascii() == (*x <= 0x7f)), || format!("{c:?}"));
}

fn numbers(log: &mut Log, r: &mut Rng) {
    let base = *r.pick(&[0usize, 0, 1, 7, usize::MAX - 20]);
    let (a, b) = (base + r.below(9), base + r.below(9));
    list(log, r, "vx_range", (0..b.saturating_sub(a)).map(|i| a + i).collect(), || a..b);
    list(log, r, "vx_range_rev", (0..b.saturating_sub(a)).map(|i| b - 1 - i).collect(), || (a..b).rev());
    let n = if a <= b { b - a + 1 } else { 0 };
    list(log, r, "vx_range_incl", (0..n).map(|i| a + i).collect(), || a..=b);
    list(log, r, "vx_range_incl_rev", (0..n).map(|i| b - i).collect(), || (a..=b).rev());
    let v: Vec<usize> = (0..r.below(8)).map(|_| r.below(5)).collect();
    list(log, r, "vx_iter", v.iter().collect(), || v.iter());
    back(log, r, v.iter().collect::<Vec<_>>(), || v.iter());
    let mut w = v.clone();
    w.reverse();
    log.check("vx_reverse", (0..v.len()).all(|i| w[i] == v[v.len() - 1 - i]) && w.len() == v.len(), || format!("{v:?}"));
    let (mut x, y) = (v.clone(), w.clone());
    let z = std::mem::replace(&mut x, y);
    log.check("std::mem::replace", z == v && x == w, || format!("{v:?}"));
}

fn vectors(log: &mut Log, r: &mut Rng) {
    let mut v: Vec<u8> = (0..r.below(40)).map(|_| r.below(256) as u8).collect();
    if r.chance(1, 2) { v.reserve(r.below(100)); }
    for _ in 0..6 {
        let (old, cap) = (v.clone(), v.capacity());
        let n = old.len();
        let (a, b) = { let (x, y) = (r.below(n + 1), r.below(n + 1)); (x.min(y), x.max(y)) };
        let x = r.below(256) as u8;
        log.check("ByteVec::wf", n <= cap && cap <= isize::MAX as usize, String::new);
        match r.below(9) {
            0 => { let k = r.below(80); v.reserve(k); log.check("vx_reserve", v == old && v.capacity() >= cap && v.capacity() >= n + k, || format!("{n} {cap} {k}")); }
            1 => { // the spare capacity is written first, so that the bytes exist
                for s in v.spare_capacity_mut() { s.write(0xee); }
                let k = r.below(cap + 1);
                unsafe { v.set_len(k); }
                log.check("vx_set_len", v.len() == k && v.capacity() == cap && (0..k.min(n)).all(|i| v[i] == old[i]), || format!("{n} {cap} {k}"));
            }
            2 => if n > 0 { let i = r.below(n); v[i] = x; log.check("vx_get, vx_set", v.capacity() == cap && (0..n).all(|k| v[k] == if k == i { x } else { old[k] }), || format!("{old:?} {i}")); },
            3 => { let s: Vec<u8> = (a..b).map(|i| (i * 7) as u8).collect(); v[a..b].copy_from_slice(&s); log.check("vx_copy_from_slice", v.len() == n && v.capacity() == cap && (0..n).all(|i| v[i] == if a <= i && i < b { s[i - a] } else { old[i] }), || format!("{old:?} {a} {b}")); }
            4 => { v[a..b].fill(x); log.check("vx_fill", v.len() == n && v.capacity() == cap && (0..n).all(|i| v[i] == if a <= i && i < b { x } else { old[i] }), || format!("{old:?} {a} {b}")); }
            5 => { let d = r.below(n - (b - a) + 1); v.copy_within(a..b, d); log.check("vx_copy_within", v.len() == n && v.capacity() == cap && (0..n).all(|i| v[i] == if d <= i && i < d + (b - a) { old[a + (i - d)] } else { old[i] }), || format!("{old:?} {a} {b} {d}")); }
            6 => { let k = r.below(90); v.resize(k, x); log.check("ByteVec::resize", v.len() == k && v.capacity() >= cap && (0..k).all(|i| v[i] == if i < n { old[i] } else { x }), || format!("{old:?} {k}")); }
            7 => { let s: Vec<u8> = (0..r.below(30)).map(|i| i as u8).collect(); v.extend_from_slice(&s); log.check("ByteVec::extend_from_slice", v == [old.as_slice(), &s].concat() && v.capacity() >= cap, || format!("{old:?}")); }
            _ => {
                let w: Vec<u8> = v[a..b].to_owned();
                log.check("vx_to_owned", w.len() == b - a && (0..w.len()).all(|i| w[i] == old[a + i]), || format!("{old:?} {a} {b}"));
                log.check("slices of bytes", v[a..].len() == n - a && v[..b].len() == b && (0..n - a).all(|i| v[a..][i] == old[a + i]) && (0..b).all(|i| v[..b][i] == old[i]), || format!("{old:?} {a} {b}"));
            }
        }
    }
    let c = std::rc::Rc::new(std::cell::RefCell::new(v.clone()));
    let d = c.clone();
    d.borrow_mut().push(1);
    log.check("CellHandle", c.borrow()[..v.len()] == v[..] && c.borrow().len() == v.len() + 1, String::new);
}

const NAMES: &[&str] = &["a.rs", "b", "c.tar.gz", ".hidden", "x.", "é.rs", "d/e.rs", "d", "d/.h.rs", "./a.rs", "d/../a.rs", "ln/e.rs", "la", "missing", "missing/x", "a.rs/x", "d//e.rs", "..", "", "/", "d/.", "loop"];
fn paths(log: &mut Log, r: &mut Rng, dir: &Path, full: bool) {
    let mk = |r: &mut Rng| { let n = *r.pick(NAMES); if r.chance(1, 3) { PathBuf::from(n) } else { dir.join(n) } };
    let (p, q) = (mk(r), mk(r));
    let same = p.components().eq(q.components());
    log.check("PathBuf::eq", (p == q) == same, || format!("{p:?} {q:?}"));
    log.check("PathBuf::clone", p.clone() == p && p.clone().as_os_str() == p.as_os_str(), || format!("{p:?}"));
    // what a path has depends on its components only
    let c: PathBuf = p.components().collect();
    log.check("path_file_name", c == p && c.file_name() == p.file_name(), || format!("{p:?}"));
    log.check("path_extension", c.extension() == p.extension(), || format!("{p:?}"));
    let d: PathBuf = q.components().collect();
    log.check("PathBuf::vx_starts_with", p.starts_with(&q) == p.strip_prefix(&q).is_ok() && p.as_path() == p && p.to_path_buf() == p, || format!("{p:?} {q:?}"));
    log.check("path_strip", c.strip_prefix(&d).ok() == p.strip_prefix(&q).ok(), || format!("{p:?} {q:?}"));
    if let Some(e) = p.extension().or(p.file_name()) {
        log.check("OsStr::to_str", e.to_str().map(|s| s.as_bytes()) == std::str::from_utf8(e.as_encoded_bytes()).ok().map(|s| s.as_bytes()), || format!("{e:?}"));
        log.check("OsStr::is_empty", e.is_empty() == (e.as_encoded_bytes().len() == 0), || format!("{e:?}"));
        log.check("OsStr::to_string_lossy", e.to_string_lossy() == std::ffi::OsString::from(e).to_string_lossy(), || format!("{e:?}"));
    }
    if !full { return; }
    // a path that ends in a separator or a dot is not taken back to its components (see DESIGN.md)
    let plain = |p: &Path| p.components().collect::<PathBuf>().as_os_str() == p.as_os_str() || p.to_string_lossy().contains("//") || p.starts_with("./");
    if plain(&p) { log.check("canonicalize", p.canonicalize().ok() == c.canonicalize().ok() && p.canonicalize().ok() == p.canonicalize().ok(), || format!("{p:?}")); }
    if let Ok(x) = p.canonicalize() { log.check("canonicalize", x.canonicalize().ok() == Some(x.clone()) && x.is_absolute(), || format!("{p:?}")); }
}

/// reading, creating and writing, against a map from canonical paths to contents
fn files(log: &mut Log, r: &mut Rng, dir: &Path, a: &Alphabet) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir.join("d")).unwrap();
    std::os::unix::fs::symlink(dir.join("d"), dir.join("ln")).unwrap();
    std::os::unix::fs::symlink(dir.join("a.rs"), dir.join("la")).unwrap();
    std::os::unix::fs::symlink(dir.join("loop"), dir.join("loop")).unwrap();
    let mut model: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let names: Vec<PathBuf> = NAMES.iter().filter(|n| !n.is_empty() && **n != "/" && **n != "..").map(|n| dir.join(n)).collect();
    for _ in 0..10 {
        let p = r.pick(&names).clone();
        let before: Vec<Option<PathBuf>> = names.iter().map(|n| n.canonicalize().ok()).collect();
        if r.chance(1, 6) {
            let t = a.text(r).into_bytes();
            let w = fs::write(&p, &t);
            if w.is_ok() { model.insert(p.canonicalize().unwrap(), t); }
            log.check("fs::write", holds(&model) && names.iter().zip(&before).all(|(n, b)| b.is_none() || n.canonicalize().ok() == *b), || format!("{p:?}"));
        } else if r.chance(1, 2) {
            match fs::File::create(&p) {
                Err(_) => log.check("vx_file_create", names.iter().map(|n| n.canonicalize().ok()).eq(before.iter().cloned()), || format!("{p:?}")),
                Ok(mut f) => {
                    let at = p.canonicalize().ok();
                    log.check("vx_file_create", at.is_some() && names.iter().zip(&before).all(|(n, b)| b.is_none() || n.canonicalize().ok() == *b), || format!("{p:?}"));
                    let at = match at { Some(x) => x, None => continue };
                    model.insert(at.clone(), vec![]);
                    log.check("vx_file_create", holds(&model), || format!("{p:?}"));
                    for _ in 0..1 + r.below(2) {
                        let mut t = a.text(r).into_bytes();
                        if r.chance(1, 8) { t.push(0xff); }
                        let ok = f.write_all(&t).is_ok();
                        model.get_mut(&at).unwrap().extend(&t);
                        log.check("write_all", ok && holds(&model), || format!("{p:?}"));
                    }
                }
            }
        } else {
            let want = p.canonicalize().ok().and_then(|c| model.get(&c).cloned());
            let got = fs::read_to_string(&p);
            log.check("vx_fs_read_to_string", match (&got, &want) { (Ok(s), Some(b)) => s.as_bytes() == &b[..], (Err(_), Some(b)) => std::str::from_utf8(b).is_err(), (Ok(_), None) => false, (Err(_), None) => true }, || format!("{p:?}"));
            log.check("vx_fs_read_to_string", holds(&model), || format!("{p:?}"));
        }
        paths(log, r, dir, true);
    }
}
fn holds(m: &BTreeMap<PathBuf, Vec<u8>>) -> bool { m.iter().all(|(p, b)| fs::read(p).ok().as_ref() == Some(b) && p.canonicalize().ok().as_ref() == Some(p)) }

fn parsing(log: &mut Log, r: &mut Rng, a: &Alphabet, set: &SyntaxSet, other: &SyntaxSet) {
    let s = r.pick(set.syntaxes());
    let o = other.find_syntax_by_name(&s.name);
    log.check("load_defaults_newlines", o.map(|o| (&o.name, &o.scope, &o.file_extensions)) == set.find_syntax_by_name(&s.name).map(|o| (&o.name, &o.scope, &o.file_extensions)), || s.name.clone());
    let e = match r.below(3) { 0 => a.small(r), 1 => String::new(), _ => s.file_extensions.first().cloned().unwrap_or_default() };
    log.check("find_syntax_by_extension", set.find_syntax_by_extension(&e).map(|s| &s.name) == set.find_syntax_by_extension(e.to_string().as_str()).map(|s| &s.name), || format!("{e:?}"));
    log.check("find_syntax_plain_text", set.find_syntax_plain_text().name == other.find_syntax_plain_text().name, String::new);
    log.check("SyntaxReference::clone", s.clone().name == s.name, || s.name.clone());
    let (mut p, mut q) = (ParseState::new(s), ParseState::new(s));
    log.check("ParseState::new", p == q, || s.name.clone());
    let mut stack = ScopeStack::new();
    for _ in 0..1 + r.below(4) {
        let n = r.below(8);
        let line = format!("{}\n", a.of(r, n).replace('\n', " "));
        let line = if r.chance(1, 5) { line.trim_end_matches('\n').to_string() } else { line };
        let (x, y) = (p.parse_line(&line, set), q.parse_line(&line, set));
        match (x, y) {
            (Ok(x), Ok(y)) => {
                let same = x == y && p == q;
                log.check("parse_line (what it reports is a function of the parser, the line and the definitions)", same, || format!("{} {line:?}", s.name));
                log.check("events_ok", x.iter().all(|e| boundary(line.as_bytes(), e.0)) && x.windows(2).all(|w| w[0].0 <= w[1].0), || format!("{} {line:?} {:?}", s.name, x.iter().map(|e| e.0).collect::<Vec<_>>()));
                for (_, op) in &x {
                    let (mut u, mut v) = (stack.clone(), stack.clone());
                    log.check("ScopeStack::clone", u == stack, String::new);
                    let (a, b) = (u.apply(op), v.apply(op));
                    log.check("ScopeStack::apply", a.is_ok() == b.is_ok() && (a.is_err() || u == v), || format!("{op:?}"));
                    let op2: ScopeStackOp = op.clone();
                    let ok = stack.apply(&op2).is_ok();
                    log.check("ScopeStack::apply", ok == a.is_ok() && (!ok || stack == u), || format!("{op:?}"));
                }
            }
            (Err(_), Err(_)) => break,
            _ => { log.check("parse_line (what it reports is a function of the parser, the line and the definitions)", false, || format!("{} {line:?}", s.name)); break; }
        }
    }
}
fn folders(log: &mut Log, r: &mut Rng, dir: &Path) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).unwrap();
    let n = r.below(3);
    for i in 0..n { fs::write(dir.join(format!("s{i}.sublime-syntax")), format!("%YAML 1.2\n---\nname: S{i}\nfile_extensions: [s{i}]\nscope: source.s{i}\ncontexts:\n  main:\n    - match: x\n      scope: k\n")).unwrap(); }
    if r.chance(1, 4) { fs::write(dir.join("bad.sublime-syntax"), "::: no").unwrap(); }
    let nl = r.chance(1, 2);
    let load = || { let mut b = syntect::parsing::SyntaxSetBuilder::new(); b.add_from_folder(dir, nl).ok().map(|_| { let s = b.build(); let mut v: Vec<String> = s.syntaxes().iter().map(|s| format!("{} {} {:?}", s.name, s.scope, s.file_extensions)).collect(); v.sort(); v }) };
    log.check("add_from_folder, build", load() == load(), || format!("{dir:?}"));
}

pub fn trust(seed: u64, secs: f64, dir: &Path) -> Log {
    let mut log = Log::default();
    let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(secs);
    let (set, other) = (SyntaxSet::load_defaults_newlines(), SyntaxSet::load_defaults_newlines());
    let mut k = 0u64;
    while k < 200 || std::time::Instant::now() < end {
        let mut r = Rng::new(seed.wrapping_mul(7_919).wrapping_add(k));
        let a = Alphabet::new(&mut r);
        texts(&mut log, &mut r, &a);
        more(&mut log, &mut r, &a);
        numbers(&mut log, &mut r);
        vectors(&mut log, &mut r);
        paths(&mut log, &mut r, dir, false);
        if k % 20 == 0 { files(&mut log, &mut r, &dir.join("fs"), &a); parsing(&mut log, &mut r, &a, &set, &other); }
        if k % 200 == 0 { folders(&mut log, &mut r, &dir.join("syn")); }
        k += 1;
    }
    log
}

//! Generation of cases: seeded, driven by the state of the model.
use crate::case::*;
use crate::model::{Buf, Doc, P};
use crate::run::{named_count, Source, Ws, BAD, FILES};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

const ASCII: &[&str] = &["a", "b", "e", "x", " ", "1", "(", ")", "q", "r", "ab", "fn ", "\t", "//", "\""];
const EOL: &[&str] = &["\n", "\n", "\r\n", "\r", "\n\n"];
const UNI: &[&str] = &["é", "e\u{301}", "\u{301}", "नी", "ी", "न", "😀", "\u{200d}", "👩", "👩\u{200d}🚀", "🇦", "🇧", "🇨🇦", "\u{1F3FB}", "한", "\u{1112}", "\u{1161}", "\u{11ab}", "\u{fe0f}", "ß", "漢",
    "\u{fffd}", "\u{85}", "\u{2028}", "\u{feff}", "\u{0}", "\u{b}", "\u{c}", "\u{600}", "\u{7f}", "\u{a0}", "\u{10ffff}", "\u{200c}", "\u{1d165}", "\u{10a}", "\u{10d}", "\u{40a}", "😊", "\u{4e0a}", "\u{200d}\u{1f60d}"];

/// numbers and strings that occur as literals in the sources: sizes and texts to try
pub static DICT: std::sync::OnceLock<(Vec<usize>, Vec<&'static str>)> = std::sync::OnceLock::new();
pub fn load_dict(file: &str) {
    let j: serde_json::Value = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) { Some(j) => j, None => return };
    let ints = j["ints"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).filter(|x| *x > 2).collect()).unwrap_or_default();
    let strs = j["strs"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).filter(|s| !s.is_empty() && s.len() < 40).map(|s| &*Box::leak(s.to_string().into_boxed_str())).collect()).unwrap_or_default();
    // and characters that are like a literal one in their lowest byte
    let mut strs: Vec<&'static str> = strs;
    let like: Vec<&'static str> = strs.iter().filter(|s| s.chars().count() == 1).flat_map(|s| { let c = s.chars().next().unwrap() as u32; [0x100, 0x400, 0x4e00, 0x1f600].map(|b| b + (c & 0xff)) })
        .filter_map(char::from_u32).map(|c| &*Box::leak(c.to_string().into_boxed_str())).collect();
    strs.extend(like.into_iter().take(60));
    let _ = DICT.set((ints, strs));
}
/// a number of the dictionary, or next to one, if there is one below max
fn dict_int(r: &mut Rng, max: usize) -> Option<usize> {
    let v: Vec<usize> = DICT.get()?.0.iter().cloned().filter(|n| *n <= max).collect();
    if v.is_empty() { return None; }
    // now and then the product of two of them
    let n = match r.below(6) { 0 => { let (a, b) = (*r.pick(&v), *r.pick(&v)); match a.checked_mul(b) { Some(n) if n <= max => n, _ => a } } _ => *r.pick(&v) };
    Some(match r.below(5) { 0 => n - 1, 1 => n + 1, 2 => n + r.below(4), _ => n })
}
fn dict_str(r: &mut Rng) -> Option<&'static str> { let v = &DICT.get()?.1; if v.is_empty() { None } else { Some(*r.pick(v)) } }

#[derive(Clone)]
pub struct Alphabet { v: Vec<&'static str> }
impl Alphabet {
    pub fn new(r: &mut Rng) -> Alphabet {
        let mut v: Vec<&'static str> = vec![];
        let style = r.below(10);
        let k = 1 + r.below(4);
        for _ in 0..k { v.push(*r.pick(ASCII)); }
        if style != 0 { for _ in 0..1 + r.below(3) { v.push(*r.pick(EOL)); } }
        if style >= 3 { for _ in 0..1 + r.below(6) { v.push(*r.pick(UNI)); } }
        if style == 9 { v.retain(|s| !s.is_ascii() || s.trim().is_empty()); if v.is_empty() { v.push("\u{301}"); } }
        if r.chance(1, 4) { for _ in 0..1 + r.below(2) { if let Some(s) = dict_str(r) { v.push(s); } } }
        Alphabet { v }
    }
    pub fn text(&self, r: &mut Rng) -> String {
        if r.chance(1, 12) { if let Some(n) = dict_int(r, 4200) {
            // as many of something as a number in the sources says
            let one = self.of(r, 1);
            return match r.below(4) {
                0 => { let mut s = one.repeat(n); if r.chance(1, 2) { s.push_str(&self.small(r)); } s }
                1 => "x".repeat(n),
                2 => format!("{}{}", format!("{one}\n").repeat(n.min(600)), self.small(r)),
                _ => { let mut s = self.small(r); while s.len() < n { s.push_str(&self.of(r, 1)); } let mut i = n.min(s.len()); while !s.is_char_boundary(i) { i -= 1; } s.truncate(i); s }
            };
        } }
        let n = match r.below(100) { 0..=7 => 0, 8..=49 => 1 + r.below(3), 50..=84 => 1 + r.below(8), 85..=96 => 5 + r.below(30), 97..=98 => 30 + r.below(200), _ => 200 + r.below(1500) };
        self.of(r, n)
    }
    /// very long ones: lengths at and around powers of two, or a number in the sources
    pub fn giant(&self, r: &mut Rng) -> String {
        let n = match dict_int(r, 70000) { Some(n) if n > 1000 && r.chance(1, 2) => n, _ => *r.pick(&[255usize, 1 << 10, 1 << 12, 5000, 1 << 13, 1 << 14, 20000, 1 << 15, 50000, 1 << 16, 70000]) + r.below(3) };
        let one = match r.below(4) { 3 => r.pick(&["\n", "\n", "a\n", "ab\r\n"]).to_string(), 0 => self.of(r, 1), 1 => format!("{}x", self.small(r).replace(['\n', '\r'], "")), _ => "x".into() };
        let (mut s, n) = (String::with_capacity(n + 40), if r.chance(1, 3) { n } else { n / one.len().max(1) + 1 });
        while !one.is_empty() && s.len() < n { s.push_str(&one); }
        match r.below(4) { 0 => s, 1 => format!("{s}\n{}", self.small(r)), 2 => format!("{}\n{s}\n{}", self.small(r), self.small(r)), _ => format!("{s}\n{s}") }
    }
    pub fn of(&self, r: &mut Rng, n: usize) -> String { let mut s = String::new(); for _ in 0..n { s.push_str(*r.pick(&self.v)); } s }
    pub fn small(&self, r: &mut Rng) -> String { let n = r.below(5); self.of(r, n) }
}
/// a position: mostly one that exists, sometimes one just outside, rarely one far away
pub fn position(r: &mut Rng, t: &str) -> P {
    let d = Doc::new(t);
    let l = match r.below(6) { 0 => d.count() - 1, _ => r.below(d.count()) };
    if r.chance(1, 16) { if let Some(n) = dict_int(r, 1 << 20) { return if r.chance(1, 3) { P(n, r.below(3)) } else { P(l, n) }; } }
    match r.below(40) {
        0..=29 => P(l, match r.below(5) { 0 => d.len(l), 1 => 0, _ => r.below(d.len(l) + 1) }),
        30..=33 => P(l, d.len(l) + 1 + r.below(3)),
        34..=35 => P(d.count() + r.below(3), r.below(3)),
        36..=38 => P(r.below(d.count() + 2), r.below(12)),
        _ => *r.pick(&[P(0, usize::MAX / 2), P(usize::MAX / 2, 0), P(1 << 40, 7), P(l, 1 << 33), P(0, 256), P(256, 0), P(0, 65536)]),
    }
}
/// a text with one character put in place of another, of the same length if it can be; often near the end
fn changed(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() { return c.into_iter().collect(); }
    let i = match r.below(3) { 0 => c.len() - 1, 1 => 0, _ => r.below(c.len()) };
    c[i] = match c[i] { 'a' => 'b', '\n' => if r.chance(1, 2) { '\r' } else { ' ' }, x if x.is_ascii() => 'a', x => char::from_u32(x as u32 ^ 1).unwrap_or('a') };
    c.into_iter().collect()
}
/// a position close to another one
fn near(r: &mut Rng, t: &str, p: P) -> P {
    match r.below(3) { 0 => P(p.0, p.1.saturating_add(r.below(4))), 1 => P(p.0.saturating_add(r.below(2)), r.below(4)), _ => position(r, t) }
}

/// relative weights of the operations, by the property that is looked at
pub struct Weights([usize; 30]);
const N_OPS: usize = 30;
fn weights(prop: &str) -> Weights {
    //        ins del rng read ex grid srch mv up dn lf rt sol eol fst lst dgl new st end undo redo repl save reload write bad rm path savefull
    let mut w = [20, 6, 8, 1, 1, 1, 1, 14, 3, 3, 3, 3, 2, 2, 2, 2, 1, 1, 3, 3, 10, 6, 3, 2, 1, 1, 0, 0, 0, 0];
    let mut boost = |i: &[usize], n: usize| for k in i { w[*k] += n; };
    match prop {
        "C01" => boost(&[0, 7], 20),
        "C02" => boost(&[1, 2], 25),
        "C03" => boost(&[3, 5], 20),
        "C04" => boost(&[4, 5], 20),
        "C06" => boost(&[20], 25),
        "C07" => { boost(&[20, 21], 25); boost(&[18, 19], 3) }
        "C08" => boost(&[18, 19, 20, 21], 15),
        "C09" => { boost(&[20, 21, 23, 24], 10); boost(&[18, 19, 25], 5); boost(&[26, 27, 28, 29], 1) }
        "C10" => boost(&[7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 22], 8),
        "C11" => boost(&[8, 9, 10, 11, 12, 13, 14, 15], 12),
        "C12" => boost(&[22, 7, 16], 20),
        "C13" => { boost(&[18, 19, 20, 21, 22], 8); boost(&[16, 23, 24, 3, 6], 3) }
        "C14" => { boost(&[23, 24, 25], 15); boost(&[26, 27, 28], 5); boost(&[29], 3) }
        "C15" => boost(&[6], 40),
        _ => {}
    }
    Weights(w)
}
impl Weights { fn pick(&self, r: &mut Rng) -> usize { let mut k = r.below(self.0.iter().sum()); for i in 0..N_OPS { if k < self.0[i] { return i; } k -= self.0[i]; } 0 } }

pub fn buf_op(r: &mut Rng, w: &Weights, a: &Alphabet, m: &Buf, prop: &str) -> Op {
    let t = &m.text;
    match w.pick(r) {
        0 => Op::Ins(if r.chance(3, 4) { a.small(r) } else { a.text(r) }),
        1 => Op::Del,
        2 => { let p = if r.chance(1, 3) { m.pos } else { position(r, t) }; let q = near(r, t, p); if r.chance(1, 6) { Op::DelRange(q, p) } else { Op::DelRange(p, q) } }
        3 => { let p = position(r, t); let q = near(r, t, p); Op::Read(p, q) }
        4 => Op::Exists(position(r, t)),
        5 => Op::Grid,
        6 => Op::Search(match r.below(4) {
            0 => a.small(r),
            1 => String::new(),
            // something that is there, from a character boundary (not always a cluster's)
            _ => { let c: Vec<(usize, char)> = t.char_indices().collect(); if c.is_empty() { a.small(r) } else { let i = r.below(c.len()); let j = (i + 1 + r.below(4)).min(c.len()); t[c[i].0..c.get(j).map_or(t.len(), |x| x.0)].to_string() } }
        }),
        7 => Op::MoveTo(position(r, t)),
        8 => Op::Up, 9 => Op::Down, 10 => Op::Left, 11 => Op::Right, 12 => Op::Sol, 13 => Op::Eol, 14 => Op::First, 15 => Op::Last,
        16 => Op::Dangle(position(r, t)), 17 => Op::NewCursor(position(r, t)),
        18 => Op::Start, 19 => Op::End, 20 => Op::Undo, 21 => Op::Redo,
        22 => Op::Replace(match r.below(8) { 0 => t.clone(), 6 => changed(r, t), 7 => a.text(r), 1 => format!("{t}{}", a.small(r)), 2 => t.chars().skip(1).collect(), 3 => t.lines().take(1 + r.below(3)).collect::<Vec<_>>().join("\n"), _ => a.text(r) }),
        23 => Op::Save, 24 => Op::Reload,
        25 => Op::Write(match r.below(6) { 0 => t.clone(), 5 => changed(r, t), 1 => m.synced.clone().unwrap_or_default(), 2 => String::new(), _ => a.text(r) }),
        26 => Op::WriteBad, 27 => Op::Remove,
        28 => Op::Path(*r.pick(&[PathKind::Unset, PathKind::Main, PathKind::Main, PathKind::Other, PathKind::MissingDir, PathKind::Dir])),
        _ => { let _ = prop; Op::SaveFull }
    }
}
pub struct BufGen<'a> { pub r: &'a mut Rng, pub w: Weights, pub a: Alphabet, pub left: usize, pub prop: String, pub mode: usize, pub tail: usize, pub pending: Vec<Op> }
impl<'a> BufGen<'a> {
    pub fn new(r: &'a mut Rng, prop: &str) -> BufGen<'a> {
        let a = Alphabet::new(r);
        let mode = match r.below(4000) { 0..=3 => 2, 4 => 3, 5..=120 => 1, _ => 0 }; // 2: very many small edits; 1: long; 3: a giant text
        let left = match mode { 2 => 1200 + r.below(1500), 3 => 3 + r.below(6), 1 => 100 + r.below(300), _ => match r.below(10) { 0..=4 => 1 + r.below(10), 5..=8 => 5 + r.below(30), _ => 20 + r.below(60) } };
        let pending = if mode != 3 { vec![] } else {
            let t = a.giant(r);
            let mut v = vec![Op::Ins(t), Op::Eol, Op::Up];
            if r.chance(1, 2) { v.push(Op::Down); }
            v.reverse();
            v
        };
        BufGen { r, w: weights(prop), a, left, prop: prop.into(), mode, tail: 0, pending }
    }
}
impl<'a> Source<Buf, Op> for BufGen<'a> {
    fn next(&mut self, m: &Buf) -> Option<Op> {
        if let Some(o) = self.pending.pop() { return Some(o); }
        if self.left == 0 {
            // finally: all the way back and forth through the history
            if self.tail == 0 { self.tail = 1; return Some(Op::Undo); }
            if self.tail == 1 { if m.point > 0 { return Some(Op::Undo); } self.tail = 2; return Some(Op::Undo); }
            if self.tail == 2 { if m.point < m.steps.len() { return Some(Op::Redo); } self.tail = 3; return Some(Op::Redo); }
            if self.tail == 3 { self.tail = 4; return Some(Op::Grid); }
            return None;
        }
        self.left -= 1;
        if self.mode == 2 && self.r.chance(9, 10) {
            return Some(match self.r.below(10) { 0 => Op::Del, 1 => Op::Undo, 2 => Op::MoveTo(position(self.r, &m.text)), 3 => Op::Right, _ => Op::Ins(if m.text.len() > 400 { String::new() } else { ASCII[self.r.below(4)].to_string() }) });
        }
        // short idioms that random choice rarely completes
        if self.r.chance(1, 12) {
            let a = self.a.clone();
            let p = position(self.r, &m.text);
            let size = if self.r.chance(1, 8) { dict_int(self.r, 1100) } else if self.r.chance(1, 100) { Some(*self.r.pick(&[33usize, 65, 100, 129, 257, 300])) } else { None };
            if let Some(n) = size { {
                let x = a.of(self.r, 1);
                let one: Vec<Op> = match self.r.below(9) {
                    0 => vec![Op::Undo], 1 => vec![Op::Redo], 2 => vec![Op::Right], 3 => vec![Op::Down], 4 => vec![Op::Del],
                    5 => vec![Op::Start, Op::Ins(x.clone()), Op::End], 6 => vec![Op::Ins(x.clone()), Op::Undo],
                    _ => vec![Op::Ins(x.clone())],
                };
                let mut seq = vec![];
                let group = self.r.chance(1, 4);
                if group { seq.push(Op::Start); }
                for _ in 0..n { seq.extend(one.iter().cloned()); }
                if group { seq.push(Op::End); seq.push(Op::Undo); seq.push(Op::Redo); }
                seq.reverse();
                self.pending = seq;
                return self.pending.pop();
            } }
            let mut seq: Vec<Op> = match self.r.below(9) {
                0 => vec![Op::Undo, Op::Redo],
                1 => vec![Op::Undo, Op::Ins(a.small(self.r)), Op::Redo],
                2 => vec![Op::Start, Op::Ins(a.small(self.r)), Op::MoveTo(p), Op::Ins(a.small(self.r)), Op::Del, Op::End, Op::Undo, Op::Redo],
                3 => vec![Op::Undo, Op::Undo, Op::Start, Op::Ins(a.small(self.r)), Op::Redo, Op::End, Op::Undo],
                4 => vec![Op::Save, Op::Undo, Op::Ins(a.small(self.r)), Op::Undo, Op::Redo],
                5 => vec![Op::MoveTo(p), Op::Eol, Op::Down, Op::Down, Op::Up, Op::Up, Op::Last, Op::Up],
                6 => vec![Op::Start, Op::Del, Op::Save, Op::Ins(a.small(self.r)), Op::Undo, Op::Undo],
                7 => vec![Op::Write(a.text(self.r)), Op::Reload, Op::Undo, Op::Redo],
                _ => vec![Op::MoveTo(p), Op::Ins(a.text(self.r)), Op::MoveTo(p), Op::Ins(a.small(self.r)), Op::Grid, Op::Undo],
            };
            seq.reverse();
            self.pending = seq;
            return self.pending.pop();
        }
        Some(buf_op(self.r, &self.w, &self.a, m, &self.prop))
    }
}
pub struct GapGen<'a> { pub r: &'a mut Rng, pub a: Alphabet, pub left: usize }
impl<'a> Source<String, GOp> for GapGen<'a> {
    fn next(&mut self, t: &String) -> Option<GOp> {
        if self.left == 0 { return None; }
        self.left -= 1;
        if self.left == 0 { return Some(GOp::Grid); }
        let r = &mut *self.r;
        let p = position(r, t);
        Some(match r.below(20) {
            0..=8 => GOp::Ins(p, if r.chance(4, 5) { self.a.small(r) } else { self.a.text(r) }),
            9..=14 => GOp::Del(p, near(r, t, p)),
            15..=16 => GOp::Read(p, near(r, t, p)),
            17 => GOp::Exists(p),
            _ => GOp::Grid,
        })
    }
}
pub struct WsGen<'a> { pub r: &'a mut Rng, pub a: Alphabet, pub w: Weights, pub left: usize, pub many: bool, pub tail: usize }
impl<'a> WsGen<'a> {
    pub fn new(r: &'a mut Rng) -> WsGen<'a> {
        let a = Alphabet::new(r);
        let many = r.chance(1, 20);
        let left = if many { match dict_int(r, 300) { Some(n) if r.chance(1, 2) => 2 * n + 8, _ => 80 + r.below(80) } } else { 3 + r.below(30) };
        WsGen { r, a, w: weights("W"), left, many, tail: 0 }
    }
}
impl<'a> Source<Ws, WOp> for WsGen<'a> {
    fn next(&mut self, m: &Ws) -> Option<WOp> {
        if self.left == 0 { self.tail += 1; return match self.tail { 1 => Some(WOp::Tour), 2 => Some(WOp::Tokens), _ => None }; }
        self.left -= 1;
        let r = &mut *self.r;
        let file = |r: &mut Rng| r.below(FILES.len());
        let name = |r: &mut Rng| if r.chance(1, 2) { r.below(FILES.len()) } else { r.below(named_count()) };
        Some(match r.below(100) {
            0..=14 => WOp::Add(self.a.small(r), if r.chance(1, 2) { Some(name(r)) } else { None }, r.chance(1, 4)),
            15..=19 => WOp::AddFile(file(r)),
            20..=39 => { let n = if r.chance(2, 3) { 5 } else { FILES.len() }; WOp::Open(if n == 5 { *r.pick(&[0usize, 1, 2, 3, BAD + 2, 10, 13, BAD + 4]) } else { r.below(n) }, r.below(4)) }
            40..=48 => WOp::Next,
            49..=57 => WOp::Prev,
            58..=67 => if self.many && r.chance(3, 4) { WOp::Next } else { WOp::Close },
            68..=69 => WOp::Tour,
            70..=73 => WOp::Tokens,
            74..=76 => WOp::Syntax,
            77 => WOp::ClearSyntax,
            78..=81 => WOp::SetPath(if r.chance(1, 4) { None } else { Some(name(r)) }),
            _ => match m.cur { Some(i) => WOp::Edit(buf_op(r, &self.w, &self.a, &m.bufs[i].m, "W")), None => WOp::Open(r.below(5), r.below(4)) },
        })
    }
}
pub const SYNTAXES: &[&str] = &["VxA", "VxB", "VxC", "Rust", "Plain Text", "Python", "HTML", "Markdown", "C", "JSON", "JavaScript", "Bourne Again Shell (bash)"];
const CODE: &[&str] = &["struct S {", "}", "fn f() ", "// c", "/* ", "*/", "\"s\\n\"", "let x = 1;", "def f(a):", "  ", "<p>", "</p>", "# h", "* i", "`c`", "{\"k\": [1]}", "'", "=", "é", "e\u{301}", "(a1)", "xxq", "r", "Z", "aZb"];
pub fn token_text(r: &mut Rng, a: &Alphabet, simple: bool) -> String {
    // a long line; matching takes quadratic time in some syntaxes, so only of the simple ones and of this length
    if simple && r.chance(1, 400) { return format!("{}{}{}\n{}", r.pick(CODE), "x ".repeat(*r.pick(&[128usize, 513, 1025, 2050])), r.pick(CODE), r.pick(CODE)); }
    if r.chance(1, 2) { return a.text(r); }
    let n = 1 + r.below(12);
    let mut s = String::new();
    for _ in 0..n { match r.below(4) { 0 => s.push_str(*r.pick(EOL)), 1 => s.push_str(&a.small(r)), _ => s.push_str(*r.pick(CODE)) } }
    s
}
pub fn algebra(r: &mut Rng, a: &Alphabet) -> Case {
    let mut p = [0usize; 10];
    let big = r.chance(1, 10);
    for x in p.iter_mut() { *x = if big && r.chance(1, 3) { *r.pick(&[255usize, 256, 65535, 65536, 1 << 31, 1 << 32, usize::MAX / 4]) } else { r.below(4) }; }
    Case::Algebra { p, text: a.text(r) }
}
/// all texts over a small alphabet, by number
pub fn enumerated(mut k: usize) -> Option<String> {
    const A: &[&str] = &["a", "\n", "\r", "é", "\u{301}"];
    let (mut n, mut size) = (0, 1);
    while k >= size { k -= size; n += 1; size *= A.len(); if n > 6 { return None; } }
    let mut s = String::new();
    for _ in 0..n { s.push_str(A[k % A.len()]); k /= A.len(); }
    Some(s)
}

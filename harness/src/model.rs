//! Reference model: text as a String, history as a list of texts, cursor as a position.
//! Written from the properties, sharing nothing with scribe but the grapheme segmentation library.
use serde::{Deserialize, Serialize};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub struct P(pub usize, pub usize);

/// byte offsets of the clusters of each line (and of the line's end, as the last entry)
pub struct Doc {
    pub lines: Vec<Vec<usize>>,
}
impl Doc {
    pub fn new(t: &str) -> Doc {
        let mut lines = vec![];
        let mut at = 0;
        let parts: Vec<&str> = t.split('\n').collect();
        let n = parts.len();
        for (i, raw) in parts.iter().enumerate() {
            let content = if i + 1 < n && raw.ends_with('\r') { &raw[..raw.len() - 1] } else { raw };
            let mut offs: Vec<usize> = content.grapheme_indices(true).map(|(o, _)| at + o).collect();
            offs.push(at + content.len());
            lines.push(offs);
            at += raw.len() + 1;
        }
        Doc { lines }
    }
    pub fn count(&self) -> usize { self.lines.len() }
    pub fn len(&self, l: usize) -> usize { self.lines[l].len() - 1 }
    pub fn place(&self, p: P) -> Option<usize> { self.lines.get(p.0).and_then(|l| l.get(p.1)).copied() }
    pub fn exists(&self, p: P) -> bool { self.place(p).is_some() }
}
pub fn ins(t: &str, p: P, d: &str) -> String {
    match Doc::new(t).place(p) { Some(o) => format!("{}{}{}", &t[..o], d, &t[o..]), None => t.to_string() }
}
pub fn del(t: &str, a: P, b: P) -> String {
    let (a, b) = if b < a { (b, a) } else { (a, b) };
    let d = Doc::new(t);
    let s = match d.place(a) { Some(s) => s, None => return t.to_string() };
    let e = d.place(b).or_else(|| b.0.checked_add(1).and_then(|l| d.place(P(l, 0)))).unwrap_or(t.len());
    format!("{}{}", &t[..s], &t[e..])
}
pub fn read(t: &str, a: P, b: P) -> Option<String> {
    let (a, b) = if b < a { (b, a) } else { (a, b) };
    let d = Doc::new(t);
    Some(t[d.place(a)?..d.place(b)?].to_string())
}
pub fn retarget(t: &str, p: P) -> P {
    let d = Doc::new(t);
    if d.exists(p) { p } else if p.0 < d.count() { P(p.0, 0) } else { P(0, 0) }
}
pub fn search(t: &str, n: &str) -> Vec<P> {
    let d = Doc::new(t);
    let mut r = vec![];
    for l in 0..d.count() {
        let end = d.lines[l][d.len(l)];
        for k in 0..d.len(l) {
            if t[d.lines[l][k]..end].starts_with(n) { r.push(P(l, k)); }
        }
    }
    r
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Ins, Del, Rep }
/// one elementary change
#[derive(Clone, Debug)]
pub struct Elem { pub kind: Kind, pub pos: P, pub before: String, pub after: String, pub placed: bool }

#[derive(Clone, Debug)]
pub struct Buf {
    pub text: String,
    pub pos: P,
    pub sticky: usize,
    pub steps: Vec<Vec<Elem>>,
    pub point: usize,
    pub mark: Option<usize>,
    pub open: Option<Vec<Elem>>,
    /// the text the file held when it was last loaded or saved
    pub synced: Option<String>,
    /// what the callback must have been told by the last operation: position, and the text visible then
    pub notes: Vec<(P, String, bool)>,
    pub groups_used: bool,
}
impl Buf {
    pub fn new(text: &str, loaded: bool) -> Buf {
        Buf { text: text.into(), pos: P(0, 0), sticky: 0, steps: vec![], point: 0, mark: if loaded { Some(0) } else { None }, open: None,
            synced: if loaded { Some(text.into()) } else { None }, notes: vec![], groups_used: false }
    }
    pub fn modified(&self) -> bool { !(self.mark == Some(self.point)) || self.open_nonempty() }
    pub fn open_nonempty(&self) -> bool { self.open.as_ref().map_or(false, |g| !g.is_empty()) }
    fn push_step(&mut self, s: Vec<Elem>) {
        self.steps.truncate(self.point);
        if let Some(m) = self.mark { if m > self.point { self.mark = None; } }
        self.steps.push(s);
        self.point += 1;
    }
    pub fn commit(&mut self) { if let Some(g) = self.open.take() { if !g.is_empty() { self.push_step(g); } } }
    fn change(&mut self, e: Elem) {
        self.text = e.after.clone();
        self.notes.push((e.pos, e.after.clone(), e.kind == Kind::Rep));
        if e.kind == Kind::Rep { self.pos = retarget(&self.text, self.pos); self.sticky = self.pos.1; }
        match self.open { Some(ref mut g) => g.push(e), None => self.push_step(vec![e]) }
    }
    pub fn insert(&mut self, d: &str) {
        let p = self.pos;
        let after = ins(&self.text, p, d);
        let placed = Doc::new(&self.text).exists(p);
        self.change(Elem { kind: Kind::Ins, pos: p, before: self.text.clone(), after, placed });
    }
    pub fn delete_range(&mut self, a: P, b: P) {
        let s = a.min(b);
        let after = del(&self.text, a, b);
        let placed = Doc::new(&self.text).exists(s);
        self.change(Elem { kind: Kind::Del, pos: s, before: self.text.clone(), after, placed });
    }
    pub fn delete(&mut self) {
        let P(l, o) = self.pos;
        let end = if Doc::new(&self.text).exists(P(l, o + 1)) { P(l, o + 1) } else { P(l + 1, 0) };
        self.delete_range(self.pos, end);
    }
    pub fn replace(&mut self, n: &str) {
        if n == self.text { return; }
        self.change(Elem { kind: Kind::Rep, pos: P(0, 0), before: self.text.clone(), after: n.into(), placed: true });
    }
    pub fn undo(&mut self) {
        self.commit();
        if self.point == 0 { return; }
        self.point -= 1;
        for e in self.steps[self.point].clone().iter().rev() {
            self.text = e.before.clone();
            if e.kind != Kind::Del || e.placed { self.notes.push((e.pos, e.before.clone(), e.kind == Kind::Rep)); }
            if e.kind == Kind::Rep { self.pos = retarget(&self.text, self.pos); self.sticky = self.pos.1; }
        }
    }
    pub fn redo(&mut self) {
        if self.open_nonempty() || self.point == self.steps.len() { return; }
        for e in self.steps[self.point].clone().iter() {
            self.text = e.after.clone();
            self.notes.push((e.pos, e.after.clone(), e.kind == Kind::Rep));
            if e.kind == Kind::Rep { self.pos = retarget(&self.text, self.pos); self.sticky = self.pos.1; }
        }
        self.point += 1;
    }
    pub fn sync(&mut self) {
        if self.open.is_some() { self.commit(); self.open = Some(vec![]); }
        self.mark = Some(self.point);
        self.synced = Some(self.text.clone());
    }
    pub fn move_to(&mut self, p: P) -> bool {
        if Doc::new(&self.text).exists(p) { self.pos = p; self.sticky = p.1; true } else { false }
    }
    /// to the desired column of a line, if the line exists
    pub fn to_line(&mut self, l: usize) {
        let d = Doc::new(&self.text);
        if l < d.count() { self.pos = P(l, self.sticky.min(d.len(l))); }
    }
}

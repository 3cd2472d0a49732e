//! Runs cases against the real crate, in lockstep with the model.
use crate::case::*;
use crate::model::{self, Buf, Doc, P};
use scribe::buffer::{Distance, GapBuffer, LineRange, Position, Range, Token};
use scribe::{Buffer, Workspace};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};
use syntect::parsing::{ParseState, ScopeStack, SyntaxDefinition, SyntaxReference, SyntaxSet};
use unicode_segmentation::UnicodeSegmentation;

pub fn pos(p: P) -> Position { Position { line: p.0, offset: p.1 } }
pub fn rng(a: P, b: P) -> Range { Range::new(pos(a), pos(b)) }

/// The case a worker is executing: what the watchdog and panic reports read.
pub struct Live { pub case: Option<Case>, pub ticks: u64, pub labels: Vec<&'static str> }
pub type Shared = Arc<Mutex<Live>>;
/// where the case being executed is written down before every operation (to know it if the process dies)
pub static TRACE: OnceLock<PathBuf> = OnceLock::new();
impl Live { pub fn note(&self) { if let (Some(t), Some(c)) = (TRACE.get(), &self.case) { let _ = fs::write(t, serde_json::to_string(c).unwrap()); } } }
pub fn shared() -> Shared { Arc::new(Mutex::new(Live { case: None, ticks: 0, labels: vec![] })) }

/// Where operations come from: a fixed script, or a generator looking at the model.
pub trait Source<M, O> { fn next(&mut self, m: &M) -> Option<O>; }
pub struct Fixed<O>(pub std::vec::IntoIter<O>);
impl<M, O> Source<M, O> for Fixed<O> { fn next(&mut self, _: &M) -> Option<O> { self.0.next() } }

fn guarded<T>(labels: &[&'static str], what: &str, f: impl FnOnce() -> T) -> Result<T, Mis> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let mut l = labels.to_vec();
        if !l.contains(&"C05") { l.push("C05"); }
        Mis { labels: l, what: format!("{what} panicked: {msg}") }
    })
}
fn merge(v: Vec<Mis>) -> Option<Mis> {
    if v.is_empty() { return None; }
    let mut labels: Vec<&'static str> = vec![];
    for m in &v { for l in &m.labels { if !labels.contains(l) { labels.push(l); } } }
    Some(Mis { labels, what: v.into_iter().map(|m| format!("[{}] {}", m.labels.join(","), m.what)).collect::<Vec<_>>().join("; ") })
}
fn short(s: &str) -> String {
    if s.len() <= 300 { format!("{s:?}") } else {
        let mut i = 200; while !s.is_char_boundary(i) { i += 1; }
        format!("{:?}... ({} bytes)", &s[..i], s.len())
    }
}

/// every position near the text: does it exist, as it should; and what is between it and some others
pub fn grid(text: &str, exists: &dyn Fn(P) -> bool, read: &dyn Fn(P, P) -> Option<String>, max: usize) -> Vec<Mis> {
    let d = Doc::new(text);
    let mut out = vec![];
    let mut all = vec![];
    'o: for l in 0..d.count() + 2 {
        let n = if l < d.count() { d.len(l) } else { 0 };
        for c in 0..n + 3 { all.push(P(l, c)); if all.len() > max { break 'o; } }
    }
    for &p in &all {
        let (e, a) = (d.exists(p), exists(p));
        if e != a { out.push(Mis::new(&["C04"], format!("position {p:?} {} but is reported otherwise, in {}", if e { "exists" } else { "does not exist" }, short(text)))); break; }
    }
    let k = if all.len() < 12 { 1 } else { all.len() / 12 + 1 };
    'r: for i in (0..all.len()).step_by(k) {
        for j in (i..all.len()).step_by(k) {
            let (p, q) = (all[i], all[j]);
            let (e, a) = (model::read(text, p, q), read(p, q));
            if e != a { out.push(Mis::new(&["C03", "C04"], format!("reading {p:?}..{q:?} gives {a:?}, not {e:?}, in {}", short(text)))); break 'r; }
        }
    }
    out
}

pub fn op_labels(op: &Op, m: &Buf) -> Vec<&'static str> {
    match op {
        Op::Ins(_) => vec!["C01"],
        Op::Del | Op::DelRange(..) => vec!["C02"],
        Op::Read(..) | Op::Grid => vec!["C03"],
        Op::Exists(_) => vec!["C04"],
        Op::Search(_) => vec!["C15"],
        Op::MoveTo(_) => vec!["C10"],
        Op::Up | Op::Down | Op::Left | Op::Right | Op::Sol | Op::Eol | Op::First | Op::Last => vec!["C11", "C10"],
        Op::Dangle(_) | Op::NewCursor(_) => vec!["C10"],
        Op::Start | Op::End => vec!["C08"],
        Op::Undo => if m.groups_used { vec!["C06", "C08"] } else { vec!["C06"] },
        Op::Redo => if m.groups_used { vec!["C07", "C08"] } else { vec!["C07"] },
        Op::Replace(_) => vec!["C12"],
        Op::Save | Op::SaveFull | Op::Reload | Op::Write(_) | Op::WriteBad | Op::Remove | Op::Path(_) => vec!["C14"],
    }
}

fn path_of(dir: &Path, k: PathKind) -> Option<PathBuf> {
    match k {
        PathKind::Unset => None,
        PathKind::Main => Some(dir.join("main.txt")),
        PathKind::Other => Some(dir.join("other.txt")),
        PathKind::MissingDir => Some(dir.join("nodir").join("x.txt")),
        PathKind::Dir => Some(dir.to_path_buf()),
    }
}

/// A file that can be opened, but neither written to nor read: our own memory, at address zero, where nothing is.
/// (`/dev/full` would do for writing, but reading it never ends.)
const UNWRITABLE: &str = "/proc/self/mem";
fn is_unwritable() -> bool {
    static ONCE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ONCE.get_or_init(|| {
        use std::io::{Read, Write};
        fs::File::create(UNWRITABLE).map_or(false, |mut f| f.write(b"x").is_err()) && fs::File::open(UNWRITABLE).map_or(false, |mut f| f.read(&mut [0]).is_err())
    })
}
/// runs one operation on the model and on the buffer, and compares
pub fn step(m: &mut Buf, b: &mut Buffer, op: &Op, dir: &Path, cb: bool) -> Result<(), Mis> {
    let l = op_labels(op, m);
    let mut bad: Vec<Mis> = vec![];
    m.notes.clear();
    let rec: Rc<RefCell<Vec<(P, Option<String>)>>> = Rc::new(RefCell::new(vec![]));
    if cb {
        let data = b.cursor.data.clone();
        let r = rec.clone();
        b.change_callback = Some(Box::new(move |p| {
            let t = data.try_borrow().ok().map(|d| d.to_string());
            r.borrow_mut().push((P(p.line, p.offset), t));
        }));
    }
    let (id, path, syn) = (b.id, b.path.clone(), b.syntax_definition.as_ref().map(|s| s.name.clone()));
    let pos0 = m.pos;
    let existed = Doc::new(&m.text).exists(m.pos);
    let undone_rep = |m: &Buf| m.point < m.steps.len() && m.steps[m.point].iter().any(|e| e.kind == model::Kind::Rep);
    let mut rep = false;
    let mut expect_path = path.clone();
    macro_rules! go { ($e:expr) => { guarded(&l, &format!("{op:?}"), || $e)? } }
    match op {
        Op::Ins(s) => { m.insert(s); go!(b.insert(s.as_str())) }
        Op::Del => { m.delete(); go!(b.delete()) }
        Op::DelRange(p, q) => { m.delete_range(*p, *q); go!(b.delete_range(rng(*p, *q))) }
        Op::Read(p, q) => {
            let (e, a) = (model::read(&m.text, *p, *q), go!(b.read(&rng(*p, *q))));
            if e != a { bad.push(Mis::new(&["C03"], format!("reading {p:?}..{q:?} gives {a:?}, not {e:?}"))); }
        }
        Op::Exists(p) => {
            let (e, a) = (Doc::new(&m.text).exists(*p), go!(b.cursor.data.borrow().in_bounds(&pos(*p))));
            if e != a { bad.push(Mis::new(&["C04"], format!("position {p:?}: exists = {a}, not {e}"))); }
        }
        Op::Grid => {
            let t = m.text.clone();
            bad.extend(go!(grid(&t, &|p| b.cursor.data.borrow().in_bounds(&pos(p)), &|p, q| b.read(&rng(p, q)), 60)));
        }
        Op::Search(n) => {
            let e = model::search(&m.text, n);
            let a: Vec<P> = go!(b.search(n)).iter().map(|p| P(p.line, p.offset)).collect();
            if e != a { bad.push(Mis::new(&["C15"], format!("searching {n:?} gives {a:?}, not {e:?}, in {}", short(&m.text)))); }
        }
        Op::MoveTo(p) => {
            let (e, a) = (m.move_to(*p), go!(b.cursor.move_to(pos(*p))));
            if e != a { bad.push(Mis::new(&["C10"], format!("move to {p:?} returns {a}, not {e}"))); }
        }
        Op::Up => { if m.pos.0 > 0 { let t = m.pos.0 - 1; m.to_line(t); } go!(b.cursor.move_up()) }
        Op::Down => { let t = m.pos.0 + 1; m.to_line(t); go!(b.cursor.move_down()) }
        Op::Left => { if m.pos.1 > 0 { let p = P(m.pos.0, m.pos.1 - 1); m.move_to(p); } go!(b.cursor.move_left()) }
        Op::Right => { let p = P(m.pos.0, m.pos.1 + 1); m.move_to(p); go!(b.cursor.move_right()) }
        Op::Sol => { let p = P(m.pos.0, 0); m.move_to(p); go!(b.cursor.move_to_start_of_line()) }
        Op::Eol => {
            let d = Doc::new(&m.text);
            if m.pos.0 < d.count() && (existed || d.len(m.pos.0) > 0) {
                let p = P(m.pos.0, d.len(m.pos.0));
                m.move_to(p);
                go!(b.cursor.move_to_end_of_line());
                // (an empty last line leaves the desired column as it was; either is fine)
                if d.len(p.0) == 0 { b.cursor.move_to(pos(p)); }
            } else { m.to_line(usize::MAX); go!(b.cursor.move_to_end_of_line()); let c = *b.cursor; let p = P(c.line, c.offset); if Doc::new(&m.text).exists(p) && p.0 == m.pos.0 { m.move_to(p); b.cursor.move_to(c); } }
        }
        Op::First => { m.to_line(0); m.sticky = m.pos.1; go!(b.cursor.move_to_first_line()) }
        Op::Last => { let t = Doc::new(&m.text).count() - 1; m.to_line(t); m.sticky = m.pos.1; go!(b.cursor.move_to_last_line()) }
        Op::Dangle(p) => { m.pos = *p; *b.cursor = pos(*p); }
        Op::NewCursor(p) => {
            m.pos = *p; m.sticky = p.1;
            b.cursor = scribe::buffer::Cursor::new(b.cursor.data.clone(), pos(*p));
        }
        Op::Start => { m.groups_used = true; if m.open.is_none() { m.open = Some(vec![]); } go!(b.start_operation_group()) }
        Op::End => { m.commit(); go!(b.end_operation_group()) }
        Op::Undo => { m.undo(); rep = undone_rep(m); go!(b.undo()) }
        Op::Redo => { rep = undone_rep(m); m.redo(); go!(b.redo()) }
        Op::Replace(s) => { rep = true; m.replace(s); go!(b.replace(s.as_str())) }
        Op::Save => {
            let r = go!(b.save());
            let target = path.clone().filter(|p| p.parent().map_or(false, |d| d.is_dir()) && !p.is_dir());
            match (target, r) {
                (Some(p), Ok(())) => {
                    m.sync();
                    let f = fs::read(&p).unwrap_or_default();
                    if f != m.text.as_bytes() { bad.push(Mis::new(&["C14"], format!("saved file holds {}, not {}", short(&String::from_utf8_lossy(&f)), short(&m.text)))); }
                }
                (None, Err(_)) => {}
                (Some(_), Err(e)) => bad.push(Mis::new(&["C14"], format!("save fails: {e}"))),
                (None, Ok(())) => bad.push(Mis::new(&["C14"], "save succeeds without a file to save to".into())),
            }
        }
        Op::SaveFull => if !m.text.is_empty() && is_unwritable() {
            // a file that can be opened but not written to (through a link below the scratch directory)
            let p = dir.join("full.txt");
            let _ = fs::remove_file(&p);
            if std::os::unix::fs::symlink(UNWRITABLE, &p).is_ok() {
                b.path = Some(p.clone());
                let r = go!(b.save());
                let still = fs::symlink_metadata(&p).map_or(false, |x| x.file_type().is_symlink());
                match r {
                    Err(_) => {}
                    Ok(()) if !still && fs::read(&p).ok().as_deref() == Some(m.text.as_bytes()) => m.sync(),
                    Ok(()) => bad.push(Mis::new(&["C14", "C09"], "a save that cannot be written succeeds".into())),
                }
                let _ = fs::remove_file(&p);
                b.path = path.clone();
            }
        },
        Op::Reload => {
            rep = true;
            let content = path.as_ref().and_then(|p| fs::read(p).ok()).and_then(|v| String::from_utf8(v).ok());
            let r = go!(b.reload());
            match (content, r) {
                (Some(c), Ok(())) => { m.replace(&c); m.sync(); }
                (None, Err(_)) => {}
                (Some(_), Err(e)) => bad.push(Mis::new(&["C14"], format!("reload fails: {e}"))),
                (None, Ok(())) => bad.push(Mis::new(&["C14"], "reload succeeds without a file that can be read".into())),
            }
        }
        Op::Write(s) => { if let Some(p) = &path { if p.starts_with(dir) { let _ = fs::write(p, s); } } }
        Op::WriteBad => { if let Some(p) = &path { if p.starts_with(dir) { let _ = fs::write(p, INVALID[m.text.len() % INVALID.len()]); } } }
        Op::Remove => { if let Some(p) = &path { if p.starts_with(dir) && p.is_file() { let _ = fs::remove_file(p); } } }
        Op::Path(k) => { b.path = path_of(dir, *k); expect_path = b.path.clone(); }
    }
    // the text
    let text = guarded(&["C03"], "reading the content", || b.data())?;
    if text != m.text {
        let mut tl = l.clone();
        if matches!(op, Op::Ins(_)) || (text.contains('\u{FFFD}') && !m.text.contains('\u{FFFD}')) { tl.push("C05"); }
        if matches!(op, Op::Undo | Op::Redo) && rep { tl.push("C12"); }
        let d = Doc::new(&m.text);
        let end = P(d.count() - 1, d.len(d.count() - 1));
        let whole = guarded(&["C03"], "reading the whole content", || b.read(&rng(P(0, 0), end)))?;
        if whole.as_deref() != Some(&text) { tl.push("C03"); }
        if matches!(op, Op::Search(_) | Op::Read(..) | Op::Exists(_) | Op::Grid) { tl.push("C03"); }
        bad.push(Mis { labels: tl, what: format!("text is {}, not {}", short(&text), short(&m.text)) });
    }
    // the cursor
    let c = P(b.cursor.line, b.cursor.offset);
    if c != m.pos {
        let mut cl: Vec<&'static str> = match op {
            Op::Ins(_) | Op::Del | Op::DelRange(..) => vec!["C11"],
            Op::Replace(_) => vec!["C12"],
            Op::Reload => vec!["C14", "C12"],
            Op::Undo | Op::Redo => if rep { vec!["C12"] } else { vec!["C11"] },
            _ => l.clone(),
        };
        if matches!(op, Op::MoveTo(_)) { cl.push("C11"); }
        cl.retain(|x| *x != "C10" || matches!(op, Op::MoveTo(_)));
        if (existed || rep) && text == m.text && !Doc::new(&text).exists(c) && !matches!(op, Op::Ins(_) | Op::Del | Op::DelRange(..)) { cl.push("C10"); }
        bad.push(Mis { labels: cl, what: format!("cursor is at {c:?}, not {:?} (from {pos0:?}, in {})", m.pos, short(&m.text)) });
    }
    // modified
    let md = guarded(&["C09"], "modified", || b.modified())?;
    if md != m.modified() || (!md && m.synced.as_deref() != Some(&text)) {
        let mut ml = vec!["C09"];
        if matches!(op, Op::Save | Op::SaveFull | Op::Reload) { ml.push("C14"); }
        bad.push(Mis { labels: ml, what: format!("modified is {md}, not {}", m.modified()) });
    }
    let lc = guarded(&["C04"], "line_count", || b.line_count())?;
    if lc != text.matches('\n').count() + 1 { bad.push(Mis::new(&["C04"], format!("line count is {lc} for {}", short(&text)))); }
    // the callback
    if cb {
        let told = rec.borrow().clone();
        let mut known = true;
        let mut ok = told.len() == m.notes.len();
        if ok {
            for ((p, t), (ep, et, is_rep)) in told.iter().zip(m.notes.iter()) {
                if p != ep { ok = false; break; }
                if *is_rep { known = false; } // the content is a new one; the old one is all the recorder sees
                if known && t.as_deref() != Some(et.as_str()) { ok = false; break; }
            }
        }
        if !ok {
            bad.push(Mis::new(&["C13"], format!("callback was told {told:?}, not {:?}", m.notes.iter().map(|(p, t, _)| (p, t)).collect::<Vec<_>>())));
        }
        if b.change_callback.is_none() { bad.push(Mis { labels: l.clone(), what: "change callback is lost".into() }); }
    }
    if b.id != id || b.path != expect_path || b.syntax_definition.as_ref().map(|s| s.name.clone()) != syn {
        bad.push(Mis { labels: l.clone(), what: "id, path or syntax definition has changed".into() });
    }
    match merge(bad) { Some(m) => Err(m), None => Ok(()) }
}

/// what a file can hold that isn't UTF-8: a stray byte, a truncated or overlong sequence, a surrogate, other encodings
const INVALID: &[&[u8]] = &[b"ok\n\xff\xfe bad", b"end\xe2\x82", b"caf\xe9\n", b"\xc0\x80", b"a\xed\xa0\x80b", b"\xff\xfea\0b\0", b"\xef\xbb\xbf\xff", b"\xf4\x90\x80\x80", b"\x80", b"a\0\xff"];

/// a buffer loaded from a file holds its text; there is none if the file cannot be read, or isn't UTF-8
fn load_again(path: &Path) -> Result<(), Mis> {
    let content = fs::read(path).ok().and_then(|v| String::from_utf8(v).ok());
    let r = guarded(&["C14"], "from_file", || Buffer::from_file(path).map(|b| (b.data(), *b.cursor, b.modified(), b.path.clone())))?;
    match (content, r) {
        (Some(c), Ok((t, cur, modified, p))) if t == c && cur == pos(P(0, 0)) && !modified && p == path.canonicalize().ok() => Ok(()),
        (Some(c), Ok((t, cur, modified, p))) => Err(Mis::new(&["C14"], format!("loaded {}, not {}, with cursor {cur:?}, modified {modified}, path {p:?}", short(&t), short(&c)))),
        (Some(c), Err(e)) => Err(Mis::new(&["C14"], format!("loading {} fails: {e}", short(&c)))),
        (None, Ok((t, ..))) => Err(Mis::new(&["C14"], format!("a file that is missing or not UTF-8 is loaded as {}", short(&t)))),
        (None, Err(_)) => Ok(()),
    }
}

pub fn run_buf(load: &Option<String>, cb: bool, src: &mut dyn Source<Buf, Op>, dir: &Path, sh: &Shared) -> Result<Buf, Mis> {
    for f in ["main.txt", "other.txt"] { let _ = fs::remove_file(dir.join(f)); }
    let mut m = Buf::new(load.as_deref().unwrap_or(""), load.is_some());
    let mut b = match load {
        None => guarded(&["C09"], "new", Buffer::new)?,
        Some(t) => {
            fs::write(dir.join("main.txt"), t).unwrap();
            let alias = dir.join(".").join("main.txt");
            match guarded(&["C14"], "from_file", || Buffer::from_file(&alias))? {
                Ok(b) => {
                    if b.data() != *t || *b.cursor != pos(P(0, 0)) || b.modified() || b.path.as_deref() != dir.join("main.txt").canonicalize().ok().as_deref() {
                        return Err(Mis::new(&["C14"], format!("loaded {} with cursor {:?}, modified {}, path {:?}", short(&b.data()), *b.cursor, b.modified(), b.path)));
                    }
                    b
                }
                Err(e) => return Err(Mis::new(&["C14"], format!("loading {} fails: {e}", short(t)))),
            }
        }
    };
    if load.is_none() && (b.data() != "" || !b.modified()) { return Err(Mis::new(&["C09"], "a new buffer is not empty and modified".into())); }
    loop {
        let op = match src.next(&m) { Some(o) => o, None => break };
        { let mut g = sh.lock().unwrap(); g.ticks += 1; g.labels = op_labels(&op, &m); if let Some(Case::Buf { ops, .. }) = g.case.as_mut() { ops.push(op.clone()); } g.note(); }
        step(&mut m, &mut b, &op, dir, cb)?;
        if let (Op::Write(_) | Op::WriteBad | Op::Remove, Some(p)) = (&op, b.path.as_ref()) { if p.starts_with(dir) { load_again(p)?; } }
    }
    Ok(m)
}

pub fn run_gap(init: &str, src: &mut dyn Source<String, GOp>, sh: &Shared) -> Result<(), Mis> {
    let mut t = init.to_string();
    let mut g = guarded(&["C01"], "GapBuffer::new", || {
        // with room to spare, or without
        let spare = init.len() % 3;
        let mut s = String::with_capacity(init.len() + spare * 17);
        s.push_str(init);
        GapBuffer::new(s)
    })?;
    loop {
        let op = match src.next(&t) { Some(o) => o, None => break };
        let l: Vec<&'static str> = match op { GOp::Ins(..) => vec!["C01"], GOp::Del(..) => vec!["C02"], GOp::Read(..) => vec!["C03"], GOp::Exists(_) | GOp::Grid => vec!["C04"] };
        { let mut s = sh.lock().unwrap(); s.ticks += 1; s.labels = l.clone(); if let Some(Case::Gap { ops, .. }) = s.case.as_mut() { ops.push(op.clone()); } s.note(); }
        let mut bad = vec![];
        match &op {
            GOp::Ins(p, s) => { t = model::ins(&t, *p, s); guarded(&l, &format!("{op:?}"), || g.insert(s, &pos(*p)))?; }
            GOp::Del(p, q) => { t = model::del(&t, *p, *q); guarded(&l, &format!("{op:?}"), || g.delete(&rng(*p, *q)))?; }
            GOp::Read(p, q) => {
                let (e, a) = (model::read(&t, *p, *q), guarded(&l, &format!("{op:?}"), || g.read(&rng(*p, *q)))?);
                if e != a { bad.push(Mis::new(&["C03"], format!("reading {p:?}..{q:?} gives {a:?}, not {e:?}, in {}", short(&t)))); }
            }
            GOp::Exists(p) => {
                let (e, a) = (Doc::new(&t).exists(*p), guarded(&l, &format!("{op:?}"), || g.in_bounds(&pos(*p)))?);
                if e != a { bad.push(Mis::new(&["C04"], format!("position {p:?}: exists = {a}, not {e}, in {}", short(&t)))); }
            }
            GOp::Grid => bad.extend(guarded(&l, "grid", || grid(&t, &|p| g.in_bounds(&pos(p)), &|p, q| g.read(&rng(p, q)), 60))?),
        }
        let a = guarded(&["C03"], "to_string", || g.to_string())?;
        if a != t {
            let mut tl = l.clone();
            if matches!(op, GOp::Ins(..)) || (a.contains('\u{FFFD}') && !t.contains('\u{FFFD}')) { tl.push("C05"); }
            let d = Doc::new(&t);
            let w = guarded(&["C03"], "reading the whole content", || g.read(&rng(P(0, 0), P(d.count() - 1, d.len(d.count() - 1)))))?;
            if w.as_deref() != Some(&a) { tl.push("C03"); }
            bad.push(Mis { labels: tl, what: format!("text is {}, not {}", short(&a), short(&t)) });
        }
        if let Some(m) = merge(bad) { return Err(m); }
    }
    Ok(())
}

pub fn run_lines(t: &str) -> Result<(), Mis> {
    let mut e: Vec<(usize, &str)> = t.split_inclusive('\n').enumerate().collect();
    if t.is_empty() || t.ends_with('\n') { e.push((e.len(), "")); }
    let (a, after) = guarded(&["C16"], "line iteration", || {
        let mut it = scribe::util::LineIterator::new(t);
        let mut a = vec![];
        while let Some(x) = it.next() { a.push(x); if a.len() > e.len() + 3 { break; } }
        (a, (it.next(), it.next()))
    })?;
    if a != e { return Err(Mis::new(&["C16"], format!("lines of {} are {a:?}, not {e:?}", short(t)))); }
    if after != (None, None) { return Err(Mis::new(&["C16"], format!("the line iteration of {} goes on after its end", short(t)))); }
    Ok(())
}

// ---------------------------------------------------------------- tokens
pub const CUSTOM: &[(&str, &str)] = &[
    ("vxa", "name: VxA\nscope: source.vxa\nfile_extensions: [vxa]\ncontexts:\n  main:\n    - match: 'e'\n      scope: letter.e\n    - match: '\\('\n      scope: open.paren\n      push: inner\n    - match: '[0-9]+'\n      scope: number.all number.more\n    - match: '(?=x)'\n      push: ahead\n    - match: 'w\\n'\n      push: next\n    - match: '\\n'\n      scope: line.end\n  next:\n    - meta_content_scope: meta.next\n    - match: '\\n'\n      pop: true\n  inner:\n    - meta_scope: meta.inner\n    - match: '\\)'\n      scope: close.paren\n      pop: true\n    - match: 'a'\n      scope: a.one\n  ahead:\n    - meta_content_scope: meta.ahead\n    - match: 'x'\n      scope: letter.x\n      pop: true\n"),
    ("vxb", "name: VxB\nscope: source.vxb\nfile_extensions: [vxb]\ncontexts:\n  main:\n    - match: '[\\x{0300}-\\x{036f}]'\n      scope: mark.combining\n    - match: '\\r'\n      scope: carriage.return\n    - match: '\\x{200d}'\n      scope: joiner\n    - match: '^.'\n      scope: first.char\n    - match: '.$'\n      scope: last.char\n    - match: 'q'\n      push:\n        - clear_scopes: 1\n        - meta_scope: cleared\n        - match: 'r|\\n'\n          pop: true\n"),
    ("vxc", "name: VxC\nscope: source.vxc\nfile_extensions: [vxc]\ncontexts:\n  main:\n    - match: 'a'\n      scope: letter.a\n    - match: 'Z'\n      push: nowhere\n"),
];
pub fn sets() -> &'static (SyntaxSet, SyntaxSet) {
    static S: OnceLock<(SyntaxSet, SyntaxSet)> = OnceLock::new();
    S.get_or_init(|| {
        let mut b = syntect::parsing::SyntaxSetBuilder::new();
        for (n, y) in CUSTOM { b.add(SyntaxDefinition::load_from_str(y, true, Some(n)).unwrap()); }
        (SyntaxSet::load_defaults_newlines(), b.build())
    })
}
/// what a workspace with the custom definitions knows: those of its directory besides the default ones
fn known(custom: bool) -> &'static SyntaxSet {
    static S: OnceLock<SyntaxSet> = OnceLock::new();
    if !custom { return &sets().0; }
    S.get_or_init(|| {
        let mut b = SyntaxSet::load_defaults_newlines().into_builder();
        b.add(SyntaxDefinition::load_from_str(CUSTOM[0].1, true, Some(CUSTOM[0].0)).unwrap());
        b.build()
    })
}
pub fn syntax(name: &str) -> (&'static SyntaxSet, &'static SyntaxReference) {
    let (d, c) = sets();
    if name.starts_with("Vx") { (c, c.find_syntax_by_name(name).unwrap()) } else { (d, d.find_syntax_by_name(name).unwrap_or_else(|| d.find_syntax_plain_text())) }
}
/// the scope changes of a text: byte offset and the scope stack from there on; whether tokenising fails
fn reference(text: &str, ss: &SyntaxSet, def: &SyntaxReference) -> (Vec<(usize, ScopeStack)>, bool) {
    let mut st = ParseState::new(def);
    let mut stack = ScopeStack::new();
    let mut out = vec![];
    let mut at = 0;
    let mut lines: Vec<&str> = text.split_inclusive('\n').collect();
    if text.is_empty() || text.ends_with('\n') { lines.push(""); }
    for l in lines {
        let ops = match st.parse_line(l, ss) { Ok(o) => o, Err(_) => return (out, true) };
        for (o, op) in ops {
            if stack.apply(&op).is_err() { return (out, true); }
            out.push((at + o, stack.clone()));
        }
        at += l.len();
    }
    (out, false)
}
/// tokens as (text or none for a newline, position, scope), and whether the iteration ended in an error
pub type Tok = (Option<String>, P, ScopeStack);
pub fn check_tokens(text: &str, toks: &[Tok], err: bool, ss: &SyntaxSet, def: &SyntaxReference, label: &'static str) -> Option<Mis> {
    let (events, fails) = reference(text, ss, def);
    if fails != err { return Some(Mis::new(&[label], format!("tokenising {} {}", short(text), if err { "reports an error, though there is none" } else { "reports no error, though there is one" }))); }
    let scope_at = |o: usize| events.iter().take_while(|e| e.0 <= o).last().map(|e| e.1.clone()).unwrap_or_else(ScopeStack::new);
    let d: Vec<&str> = text.split('\n').collect();
    let (mut line, mut start, mut at) = (0usize, 0usize, 0usize);
    for (v, p, s) in toks {
        match v {
            None => {
                if !text[at..].starts_with('\n') { return Some(Mis::new(&[label], format!("newline token at byte {at} of {}", short(text)))); }
                at += 1; line += 1; start = at;
            }
            Some(v) => {
                if !text[at..].starts_with(v.as_str()) || v.contains('\n') { return Some(Mis::new(&[label], format!("lexeme {v:?} at byte {at} of {}", short(text)))); }
                if v.is_empty() { continue; }
                // clusters of the line, with its line ending
                let l = &text[start..start + d[line].len() + if line + 1 < d.len() { 1 } else { 0 }];
                let col = l.grapheme_indices(true).filter(|(i, _)| *i < at - start).count();
                if *p != P(line, col) { return Some(Mis::new(&[label], format!("lexeme {v:?} at {p:?}, not {:?}, in {}", P(line, col), short(text)))); }
                let inside: Vec<usize> = events.iter().map(|e| e.0).filter(|o| *o > at && *o < at + v.len()).collect();
                for o in std::iter::once(at).chain(inside) {
                    if scope_at(o) != *s { return Some(Mis::new(&[label], format!("lexeme {v:?} at {p:?} has scope {s}, not {} (byte {o}), in {}", scope_at(o), short(text)))); }
                }
                at += v.len();
            }
        }
    }
    if at != text.len() && !err { return Some(Mis::new(&[label], format!("tokens end at byte {at} of {}", short(text)))); }
    None
}
fn collect(it: &mut dyn Iterator<Item = Token<'_>>, max: usize) -> Vec<Tok> {
    let mut out = vec![];
    for t in it {
        out.push(match t { Token::Newline => (None, P(0, 0), ScopeStack::new()), Token::Lexeme(l) => (Some(l.value.to_string()), P(l.position.line, l.position.offset), l.scope) });
        if out.len() > max { break; }
    }
    out
}
pub fn run_tokens(text: &str, name: &str) -> Result<(), Mis> {
    let (ss, def) = syntax(name);
    let set = scribe::buffer::TokenSet::new(text.to_string(), def, ss);
    let r = guarded(&["C17"], "tokenising", || match set.iter() {
        Err(_) => (vec![], true, false),
        Ok(mut it) => { let t = collect(&mut it, 4 * text.len() + 16); let e = it.error.is_some(); let more = !e && it.next().is_some(); (t, e, more) }
    })?;
    if r.2 { return Err(Mis::new(&["C17"], format!("token iteration over {} goes on after its end", short(text)))); }
    match check_tokens(text, &r.0, r.1, ss, def, "C17") { Some(m) => Err(m), None => Ok(()) }
}

// ---------------------------------------------------------------- algebra
pub fn run_algebra(v: &[usize; 10], text: &str) -> Result<(), Mis> {
    guarded(&["C18"], "algebra", || {
        let mut bad = vec![];
        let mut want = |ok: bool, what: String| if !ok { bad.push(Mis::new(&["C18"], what)); };
        let ps = [P(v[0], v[1]), P(v[2], v[3]), P(v[4], v[5])];
        for a in ps { for b in ps {
            let (x, y) = (pos(a), pos(b));
            want(x.partial_cmp(&y) == Some(a.cmp(&b)), format!("{a:?} compared with {b:?} gives {:?}", x.partial_cmp(&y)));
            want((x < y, x <= y, x > y, x >= y, x == y) == (a < b, a <= b, a > b, a >= b, a == b), format!("{a:?} and {b:?} compare wrongly"));
            let r = Range::new(x, y);
            want(r.start() == pos(a.min(b)) && r.end() == pos(a.max(b)), format!("range of {a:?} and {b:?} is {r:?}"));
            for c in ps { want(r.includes(&pos(c)) == (a.min(b) <= c && c < a.max(b)), format!("{r:?} includes {c:?}: {}", r.includes(&pos(c)))); }
        } }
        let (s, e) = (v[6], v[7]);
        let r = LineRange::new(s, e);
        let (lo, hi) = (s.min(e), s.max(e));
        want(r.start() == lo && r.end() == hi, format!("line range of {s} and {e} is {r:?}"));
        for l in [v[0], v[2], lo, hi, lo.saturating_sub(1), hi.saturating_sub(1), hi + 1] { want(r.includes(l) == (lo <= l && l < hi), format!("{r:?} includes {l}: {}", r.includes(l))); }
        want(r.to_range() == Range::new(pos(P(lo, 0)), pos(P(hi, 0))), format!("{r:?} as a range is {:?}", r.to_range()));
        want(r.to_inclusive_range() == Range::new(pos(P(lo, 0)), pos(P(hi + 1, 0))), format!("{r:?} as an inclusive range is {:?}", r.to_inclusive_range()));
        let d = Distance { lines: v[8], offset: v[9] };
        let p = ps[0];
        let sum = pos(p) + d;
        let exp = pos(if v[8] > 0 { P(p.0 + v[8], v[9]) } else { P(p.0, p.1 + v[9]) });
        want(sum == exp, format!("{p:?} + {d:?} = {sum:?}"));
        let mut q = pos(p);
        q += d;
        want(q == exp, format!("{p:?} += {d:?} gives {q:?}"));
        want(Position::new() == pos(P(0, 0)), "a new position is not (0, 0)".into());
        let ds = Distance::of_str(text);
        let tail = text.rsplit('\n').next().unwrap_or("");
        want(ds == Distance { lines: text.matches('\n').count(), offset: tail.graphemes(true).count() }, format!("distance of {} is {ds:?}", short(text)));
        merge(bad)
    }).and_then(|m| match m { Some(m) => Err(m), None => Ok(()) })
}

// ---------------------------------------------------------------- workspaces
/// files of a workspace scratch directory: path below it, content
pub const FILES: &[(&str, &str)] = &[
    ("ws/a.rs", "fn main() {}\n"), ("ws/b.txt", "plain\ntext"), ("ws/sub/c.py", "def f():\n  pass\n"), ("ws/Makefile", "all:\n\techo\n"),
    ("ws/noext", "nothing"), ("ws2/d.rs", "struct S;\n"), ("out/e.html", "<p>é</p>\r\n"), ("ws/t.tar.gz", "not really"), ("ws/UP.RS", "fn g() {}"),
    ("ws/sub/ws/f.c", "int x;\n"), ("ws/g.vxa", "(a1)\nw\ne 1\nw"), ("ws/é.rb", "puts 1\n"), ("ws/empty", ""),
    ("ws/A.rs", "fn main() {}\n"), ("ws2/a.rs", "fn main() {}\n"), ("ws/e\u{301}.rb", "puts 2"), ("ws/É.rb", "puts 3"), ("ws/bom.rs", "\u{feff}fn f() {}"), ("ws/a.rs ", "one more"), ("wS/a.rs", "x"), ("ws/a.rs.d/a.rs", "y"),
    ("ws/bad.bin", ""), ("ws/missing.txt", ""), ("ws/link.rs", ""), ("nodir/h.txt", ""), ("ws/ln/c.py", ""), ("ws/hard.rs", ""),
];
/// names of files that are not there
const NAMES: &[&[u8]] = &[
    b".bashrc", b".profile", b".rs", b".a.rs", b"a.", b"a..rs", b"a.rs.", b"rs", b"py", b"a b.rs", b"a.r s", b"a.RS", b"a.Rs", b"a.xyz", b"Rakefile", b"rakefile", b"CMakeLists.txt", b"a.rs~", b"rs.d/noext", b"a.rs/", b"..rs",
    b".gitignore", b".emacs", b"a.\xff", b"\xff.rs", b"\xff", b"a.html.erb", b"html.erb", b"-", b"...", b"a.rs\n", b" a.rs", b"a.rs ", "\u{e9}.\u{e9}".as_bytes(), b"Makefile.am", b"Makefile", b"a.Makefile", b"Dockerfile", b"PKGBUILD", b"a.vxa", b"vxa",
    "a.m\u{212a}".as_bytes(), "a.t\u{212a}t".as_bytes(), "Ma\u{212a}efile".as_bytes(), "a.\u{212a}t".as_bytes(), "a.\u{130}".as_bytes(), b"a.Plain Text", b"source.rust", b"a.source.rust",
];
/// the names of the default syntaxes
fn syntaxes() -> &'static Vec<String> {
    static E: OnceLock<Vec<String>> = OnceLock::new();
    E.get_or_init(|| sets().0.syntaxes().iter().map(|s| s.name.clone()).filter(|n| !n.contains('/')).collect())
}
fn extensions() -> &'static Vec<String> {
    static E: OnceLock<Vec<String>> = OnceLock::new();
    E.get_or_init(|| sets().0.syntaxes().iter().flat_map(|s| s.file_extensions.clone()).collect())
}
/// how many paths named() knows: the files, the names of files that are not there, and two for each extension of the default syntaxes
pub fn named_count() -> usize { FILES.len() + NAMES.len() + 2 * extensions().len() + 2 * syntaxes().len() }
pub fn named(i: usize) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    if i < FILES.len() { return PathBuf::from(FILES[i].0); }
    let i = i - FILES.len();
    if i < NAMES.len() { return Path::new("nodir").join(std::ffi::OsStr::from_bytes(NAMES[i])); }
    let i = (i - NAMES.len()) % (2 * extensions().len() + 2 * syntaxes().len());
    let e = extensions().iter().chain(syntaxes()).nth(i / 2).unwrap();
    Path::new("nodir").join(if i % 2 == 0 { e.clone() } else { format!("n.{e}") })
}
pub const BAD: usize = 21; // invalid UTF-8; after it: missing, a symbolic link to b.txt, missing directory, a file below a symbolic link to ws/sub, a hard link to a.rs

#[derive(Clone)]
pub struct WBuf { pub m: Buf, pub id: Option<usize>, pub path: Option<PathBuf>, pub syn: Option<String>, pub cb: bool }
pub struct Ws { pub bufs: Vec<WBuf>, pub cur: Option<usize>, pub ids: BTreeSet<usize> }

pub fn make_files(dir: &Path) {
    for d in ["ws/sub/ws", "ws2", "out", "syntaxes", "wS", "ws/a.rs.d"] { let _ = fs::create_dir_all(dir.join(d)); }
    for (i, (p, c)) in FILES.iter().enumerate() { if i < BAD { fs::write(dir.join(p), c).unwrap(); } }
    fs::write(dir.join("ws/bad.bin"), b"\xff\xfe").unwrap();
    let _ = fs::remove_file(dir.join("ws/missing.txt"));
    let _ = fs::remove_file(dir.join("ws/link.rs"));
    std::os::unix::fs::symlink(dir.join("ws/b.txt"), dir.join("ws/link.rs")).unwrap();
    for f in ["ws/ln", "ws/hard.rs"] { let _ = fs::remove_file(dir.join(f)); }
    std::os::unix::fs::symlink(dir.join("ws/sub"), dir.join("ws/ln")).unwrap();
    fs::hard_link(dir.join("ws/a.rs"), dir.join("ws/hard.rs")).unwrap();
    let _ = fs::create_dir_all(dir.join("broken"));
    fs::write(dir.join("broken/vxz.sublime-syntax"), "no definition").unwrap();
    fs::write(dir.join("syntaxes/vxa.sublime-syntax"), format!("%YAML 1.2\n---\n{}", CUSTOM[0].1)).unwrap();
}
pub fn spelled(dir: &Path, i: usize, k: usize) -> PathBuf {
    let p = Path::new(FILES[i].0);
    match k % 4 {
        0 => dir.join(p),
        1 => dir.join(".").join(p),
        2 => dir.join("ws/sub/../..").join(p),
        _ => Path::new(".").join(dir.file_name().unwrap()).join(p), // the parent of the scratch directory is the current one
    }
}
fn syntax_name(ss: &SyntaxSet, path: &Option<PathBuf>) -> String {
    let key = path.as_ref().and_then(|p| p.extension().filter(|e| !e.is_empty()).map(|e| e.to_string_lossy().into_owned()).or_else(|| p.file_name().and_then(|f| f.to_str()).map(String::from)));
    key.and_then(|k| ss.find_syntax_by_extension(&k)).unwrap_or_else(|| ss.find_syntax_plain_text()).name.clone()
}
fn check_current(ws: &mut Workspace, m: &Ws, labels: &[&'static str]) -> Vec<Mis> {
    let mut bad = vec![];
    if ws.current_buffer_index() != m.cur || ws.current_buffer.is_some() != m.cur.is_some() {
        bad.push(Mis::new(labels, format!("current buffer index is {:?} (buffer present: {}), not {:?}", ws.current_buffer_index(), ws.current_buffer.is_some(), m.cur)));
        return bad;
    }
    let base = ws.path.clone();
    let show = |p: &Option<PathBuf>| p.as_ref().map(|p| p.strip_prefix(&base).map(|x| x.to_path_buf()).unwrap_or_else(|_| p.clone()));
    if let Some(i) = m.cur {
        let w = &m.bufs[i];
        let b = ws.current_buffer.as_ref().unwrap();
        let state = (b.data(), P(b.cursor.line, b.cursor.offset), b.modified(), b.path.clone());
        let exp = (w.m.text.clone(), w.m.pos, w.m.modified(), w.path.clone());
        if state != exp { bad.push(Mis::new(labels, format!("buffer {i} is {state:?}, not {exp:?}"))); }
        if b.id != w.id { bad.push(Mis::new(&["C21"], format!("buffer {i} has id {:?}, not {:?}", b.id, w.id))); }
        let s = b.syntax_definition.as_ref().map(|s| s.name.clone());
        let parts = w.path.as_ref().map(|p| (p.file_name().and_then(|f| f.to_str().map(String::from)), p.extension().filter(|e| !e.is_empty()).map(|e| e.to_string_lossy().into_owned()))).unwrap_or((None, None));
        if (b.file_name(), b.file_extension()) != parts { bad.push(Mis::new(&["C21"], format!("buffer {i} at {:?} has file name {:?} and extension {:?}, not {parts:?}", w.path, b.file_name(), b.file_extension()))); }
        if s != w.syn { bad.push(Mis::new(&["C21"], format!("buffer {i} ({:?}) has syntax {s:?}, not {:?}", w.path, w.syn))); }
    }
    let cp = ws.current_buffer_path().map(|p| p.to_path_buf());
    let ecp = m.cur.and_then(|i| show(&m.bufs[i].path));
    if cp != ecp { bad.push(Mis::new(&["C20"], format!("current path is {cp:?}, not {ecp:?}"))); }
    let ps: Vec<Option<PathBuf>> = ws.buffer_paths().into_iter().map(|p| p.map(|x| x.to_path_buf())).collect();
    let eps: Vec<Option<PathBuf>> = m.bufs.iter().map(|w| show(&w.path)).collect();
    if ps.len() != eps.len() { let mut l = labels.to_vec(); if !l.contains(&"C20") { l.push("C20"); } bad.push(Mis { labels: l, what: format!("paths are {ps:?}, not {eps:?}") }); }
    else if ps != eps { bad.push(Mis::new(&["C20"], format!("paths are {ps:?}, not {eps:?}"))); }
    bad
}
thread_local! {
    /// emptied workspaces, to be used again by the next script of this thread (loading the syntaxes takes far longer than a script)
    static EMPTIED: std::cell::RefCell<[Option<(PathBuf, Workspace)>; 2]> = const { std::cell::RefCell::new([None, None]) };
    pub static REUSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn run_ws(custom: bool, src: &mut dyn Source<Ws, WOp>, dir: &Path, sh: &Shared) -> Result<(), Mis> {
    make_files(dir);
    for f in ["main.txt", "other.txt"] { let _ = fs::remove_file(dir.join(f)); }
    let dir = &dir.canonicalize().unwrap();
    let syn = dir.join("syntaxes");
    let ss = known(custom);
    let cached = if REUSE.get() { EMPTIED.with(|e| e.borrow_mut()[custom as usize].take()).filter(|c| c.0 == *dir).map(|c| c.1) } else { None };
    let mut ws = match cached {
        Some(w) => w,
        None => {
            for (p, s) in [("nodir", None), ("ws", Some("nodir")), ("ws", Some("broken"))] {
                let s = s.map(|s| dir.join(s));
                if guarded(&["C21"], "Workspace::new", || Workspace::new(&dir.join(p), s.as_deref()).is_ok())? {
                    return Err(Mis::new(&["C21"], format!("a workspace is created, with path {p} and syntax directory {s:?}")));
                }
            }
            guarded(&["C19"], "Workspace::new", || Workspace::new(&dir.join("ws/sub/.."), if custom { Some(&syn) } else { None }))?.map_err(|e| Mis::new(&["C19", "C21"], format!("workspace creation fails: {e}")))?
        }
    };
    if ws.path != dir.join("ws") { return Err(Mis::new(&["C20"], format!("workspace path is {:?}", ws.path))); }
    let mut m = Ws { bufs: vec![], cur: None, ids: BTreeSet::new() };
    if let Some(x) = merge(check_current(&mut ws, &m, &["C19"])) { return Err(x); }
    loop {
        let op = match src.next(&m) { Some(o) => o, None => break };
        let l: Vec<&'static str> = match &op {
            WOp::Open(..) => vec!["C20", "C19"],
            WOp::Tokens | WOp::Syntax | WOp::ClearSyntax => vec!["C21"],
            WOp::Edit(o) => m.cur.map(|i| op_labels(o, &m.bufs[i].m)).unwrap_or_default(),
            _ => vec!["C19"],
        };
        { let mut g = sh.lock().unwrap(); g.ticks += 1; g.labels = l.clone(); if let Some(Case::Ws { ops, .. }) = g.case.as_mut() { ops.push(op.clone()); } g.note(); }
        let mut added = false;
        match &op {
            WOp::Add(..) | WOp::AddFile(_) => {
                let (b, mut w) = match &op {
                    WOp::Add(t, p, s) => {
                        let mut b = Buffer::new();
                        b.insert(t.as_str());
                        b.path = p.map(|i| dir.join(named(i)));
                        if *s { b.syntax_definition = Some(ws.syntax_set.find_syntax_by_name("HTML").unwrap().clone()); }
                        let mut m = Buf::new("", false);
                        m.insert(t);
                        (b, WBuf { m, id: None, path: p.map(|i| dir.join(named(i))), syn: if *s { Some("HTML".into()) } else { None }, cb: false })
                    }
                    WOp::AddFile(i) => {
                        let p = dir.join(FILES[*i].0);
                        let b = match Buffer::from_file(&p) { Ok(b) => b, Err(_) => continue };
                        let t = fs::read_to_string(&p).unwrap_or_default();
                        (b, WBuf { m: Buf::new(&t, true), id: None, path: p.canonicalize().ok(), syn: None, cb: false })
                    }
                    _ => unreachable!(),
                };
                if w.syn.is_none() { w.syn = Some(syntax_name(ss, &w.path)); }
                let at = m.cur.map_or(0, |i| i + 1);
                m.bufs.insert(at, w);
                m.cur = Some(at);
                added = true;
                guarded(&l, &format!("{op:?}"), || ws.add_buffer(b))?;
            }
            WOp::Open(i, k) => {
                let p = spelled(dir, *i, *k);
                let canon = p.canonicalize().ok();
                let known: Vec<usize> = (0..m.bufs.len()).filter(|j| canon.is_some() && m.bufs[*j].path == canon).collect();
                let r = guarded(&l, &format!("{op:?}"), || ws.open_buffer(&p))?;
                if !known.is_empty() {
                    if r.is_err() { return Err(Mis::new(&["C20"], format!("opening {p:?}, which is open, fails"))); }
                    let now = ws.current_buffer_index();
                    m.cur = if m.cur.map_or(false, |c| known.contains(&c)) { m.cur } else if now.map_or(false, |n| known.contains(&n)) { now } else { Some(known[0]) };
                } else {
                    let t = canon.as_ref().and_then(|p| fs::read(p).ok()).and_then(|v| String::from_utf8(v).ok());
                    match (t, r) {
                        (Some(t), Ok(())) => {
                            let s = Some(syntax_name(ss, &canon));
                            let at = m.cur.map_or(0, |i| i + 1);
                            m.bufs.insert(at, WBuf { m: Buf::new(&t, true), id: None, path: canon, syn: s, cb: false });
                            m.cur = Some(at);
                            added = true;
                        }
                        (None, Err(_)) => {}
                        (t, _) => return Err(Mis::new(&["C20"], format!("opening {p:?} {}", if t.is_some() { "fails" } else { "succeeds, though it cannot be read" }))),
                    }
                }
            }
            WOp::Next => { if let Some(i) = m.cur { m.cur = Some((i + 1) % m.bufs.len()); } guarded(&l, "next_buffer", || ws.next_buffer())? }
            WOp::Prev => { if let Some(i) = m.cur { m.cur = Some((i + m.bufs.len() - 1) % m.bufs.len()); } guarded(&l, "previous_buffer", || ws.previous_buffer())? }
            WOp::Close => {
                if let Some(i) = m.cur { m.bufs.remove(i); m.cur = if m.bufs.is_empty() { None } else { Some(i.saturating_sub(1)) }; }
                guarded(&l, "close_current_buffer", || ws.close_current_buffer())?
            }
            WOp::Tour => for _ in 0..m.bufs.len() {
                m.cur = m.cur.map(|i| (i + 1) % m.bufs.len());
                guarded(&l, "next_buffer", || ws.next_buffer())?;
                if let Some(x) = merge(guarded(&l, "looking at the workspace", || check_current(&mut ws, &m, &l))?) { return Err(x); }
            },
            WOp::Tokens => {
                let r = guarded(&l, "current_buffer_tokens", || match ws.current_buffer_tokens() {
                    Err(_) => None,
                    Ok(s) => Some(match s.iter() { Err(_) => (vec![], true), Ok(mut it) => { let t = collect(&mut it, 100000); let e = it.error.is_some(); (t, e) } }),
                })?;
                let w = m.cur.map(|i| &m.bufs[i]).filter(|w| w.syn.is_some());
                match (w, r) {
                    (None, None) => {}
                    (Some(w), Some((t, e))) => {
                        let def = ss.find_syntax_by_name(w.syn.as_ref().unwrap()).unwrap();
                        if let Some(x) = check_tokens(&w.m.text, &t, e, ss, def, "C21") { return Err(x); }
                    }
                    (w, _) => return Err(Mis::new(&["C21"], format!("tokens are {}", if w.is_some() { "missing" } else { "given without a buffer or a syntax" }))),
                }
            }
            WOp::Syntax => {
                let r = guarded(&l, "update_current_syntax", || ws.update_current_syntax())?;
                if r.is_ok() != m.cur.is_some() { return Err(Mis::new(&["C21"], "update of the syntax succeeds without a buffer, or fails with one".into())); }
                if let Some(i) = m.cur { m.bufs[i].syn = Some(syntax_name(ss, &m.bufs[i].path)); }
            }
            WOp::ClearSyntax => if let (Some(i), Some(b)) = (m.cur, ws.current_buffer.as_mut()) { b.syntax_definition = None; m.bufs[i].syn = None; },
            WOp::SetPath(p) => if let (Some(i), Some(b)) = (m.cur, ws.current_buffer.as_mut()) { b.path = p.map(|i| if i % 3 == 2 { named(i) } else { dir.join(named(i)) }); m.bufs[i].path = b.path.clone(); },
            WOp::Edit(o) => if let (Some(i), Some(b)) = (m.cur, ws.current_buffer.as_mut()) {
                let cb = m.bufs[i].cb;
                step(&mut m.bufs[i].m, b, o, dir, cb)?;
                m.bufs[i].path = b.path.clone();
            },
        }
        if added {
            let id = ws.current_buffer.as_ref().and_then(|b| b.id);
            let at = m.cur.unwrap();
            m.bufs[at].id = id;
            match id {
                Some(x) if m.ids.insert(x) => {}
                _ => return Err(Mis::new(&["C21"], format!("new buffer gets id {id:?}; ids so far: {:?}", m.ids))),
            }
        }
        if let Some(x) = merge(guarded(&l, "looking at the workspace", || check_current(&mut ws, &m, &l))?) { return Err(x); }
    }
    if REUSE.get() {
        for _ in 0..m.bufs.len() { guarded(&["C19"], "close_current_buffer", || ws.close_current_buffer())?; }
        if ws.current_buffer.is_none() && ws.current_buffer_index().is_none() { EMPTIED.with(|e| e.borrow_mut()[custom as usize] = Some((dir.clone(), ws))); }
    }
    Ok(())
}

pub fn run_case(c: &Case, dir: &Path, sh: &Shared) -> Result<(), Mis> {
    {
        let mut g = sh.lock().unwrap();
        g.ticks += 1;
        g.labels = match c { Case::Lines { .. } => vec!["C16"], Case::Tokens { .. } => vec!["C17"], Case::Algebra { .. } => vec!["C18"], _ => vec![] };
        g.case = Some(match c {
            Case::Buf { load, cb, .. } => Case::Buf { load: load.clone(), cb: *cb, ops: vec![] },
            Case::Gap { init, .. } => Case::Gap { init: init.clone(), ops: vec![] },
            Case::Ws { custom, .. } => Case::Ws { custom: *custom, ops: vec![] },
            c => c.clone(),
        });
        g.note();
    }
    match c {
        Case::Buf { load, cb, ops } => run_buf(load, *cb, &mut Fixed(ops.clone().into_iter()), dir, sh).map(|_| ()),
        Case::Gap { init, ops } => run_gap(init, &mut Fixed(ops.clone().into_iter()), sh),
        Case::Lines { text } => run_lines(text),
        Case::Tokens { text, syntax } => run_tokens(text, syntax),
        Case::Algebra { p, text } => run_algebra(p, text),
        Case::Ws { custom, ops } => run_ws(*custom, &mut Fixed(ops.clone().into_iter()), dir, sh),
    }
}

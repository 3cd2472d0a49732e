//! Test cases: scripts of operations, in a form that can be written to a replay file.
use crate::model::P;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Ins(String), Del, DelRange(P, P), Read(P, P), Exists(P), Grid, Search(String),
    MoveTo(P), Up, Down, Left, Right, Sol, Eol, First, Last, Dangle(P), NewCursor(P),
    Start, End, Undo, Redo, Replace(String),
    Save, SaveFull, Reload, Write(String), WriteBad, Remove, Path(PathKind),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PathKind { Unset, Main, Other, MissingDir, Dir }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum GOp { Ins(P, String), Del(P, P), Read(P, P), Exists(P), Grid }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WOp {
    /// add a buffer: text, index of a path (none: no path), whether it comes with a syntax definition
    Add(String, Option<usize>, bool),
    /// add a buffer loaded from a file
    AddFile(usize),
    /// open a file, by index and spelling
    Open(usize, usize),
    Next, Prev, Close, Tour, Tokens, Syntax, ClearSyntax,
    SetPath(Option<usize>),
    Edit(Op),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    /// content of the file it is loaded from (none: new buffer), whether there is a change callback
    Buf { load: Option<String>, cb: bool, ops: Vec<Op> },
    Gap { init: String, ops: Vec<GOp> },
    Lines { text: String },
    Tokens { text: String, syntax: String },
    Algebra { p: [usize; 10], text: String },
    Ws { custom: bool, ops: Vec<WOp> },
}
impl Case {
    pub fn len(&self) -> usize {
        match self { Case::Buf { ops, .. } => ops.len(), Case::Gap { ops, .. } => ops.len(), Case::Ws { ops, .. } => ops.len(), _ => 1 }
    }
    pub fn without(&self, a: usize, n: usize) -> Case {
        fn cut<T: Clone>(v: &[T], a: usize, n: usize) -> Vec<T> { v.iter().enumerate().filter(|(i, _)| *i < a || *i >= a + n).map(|(_, x)| x.clone()).collect() }
        match self {
            Case::Buf { load, cb, ops } => Case::Buf { load: load.clone(), cb: *cb, ops: cut(ops, a, n) },
            Case::Gap { init, ops } => Case::Gap { init: init.clone(), ops: cut(ops, a, n) },
            Case::Ws { custom, ops } => Case::Ws { custom: *custom, ops: cut(ops, a, n) },
            c => c.clone(),
        }
    }
    /// all texts in the case, with a function that rebuilds it with one of them changed
    pub fn texts(&self) -> Vec<String> {
        let mut r = vec![];
        self.clone().each(&mut |s| r.push(s.clone()));
        r
    }
    pub fn with_text(&self, k: usize, t: &str) -> Case {
        let mut c = self.clone();
        let mut i = 0;
        c.each(&mut |s| { if i == k { *s = t.to_string(); } i += 1; });
        c
    }
    fn each(&mut self, f: &mut dyn FnMut(&mut String)) {
        fn op(o: &mut Op, f: &mut dyn FnMut(&mut String)) { match o { Op::Ins(s) | Op::Search(s) | Op::Replace(s) | Op::Write(s) => f(s), _ => {} } }
        match self {
            Case::Buf { load, ops, .. } => { if let Some(s) = load { f(s); } for o in ops { op(o, f); } }
            Case::Gap { init, ops } => { f(init); for o in ops { if let GOp::Ins(_, s) = o { f(s); } } }
            Case::Lines { text } | Case::Tokens { text, .. } | Case::Algebra { text, .. } => f(text),
            Case::Ws { ops, .. } => for o in ops { match o { WOp::Add(s, _, _) => f(s), WOp::Edit(o) => op(o, f), _ => {} } },
        }
    }
}

/// What went wrong: the properties it is a violation of, and a description.
#[derive(Clone, Debug)]
pub struct Mis { pub labels: Vec<&'static str>, pub what: String }
impl Mis {
    pub fn new(labels: &[&'static str], what: String) -> Mis { Mis { labels: labels.to_vec(), what } }
}

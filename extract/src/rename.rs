//! R16: record the binders of every function, and rename a function's locals back to the
//! recorded names: one by one when its list of binders has the same length but other names, and
//! otherwise those which, between two binders that kept their names, are of a kind (parameter,
//! `let`, `for`, arm or condition, closure) of which there are as many as there were.
use crate::Func;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

/// names, each after its kind and a colon
struct Binders(Vec<String>, char);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(format!("{}:{n}", self.1)); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_local(&mut self, l: &'a Local) {
        let k = std::mem::replace(&mut self.1, 'l');
        self.visit_pat(&l.pat);
        self.1 = k;
        if let Some(i) = &l.init { self.visit_local_init(i); }
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        let k = std::mem::replace(&mut self.1, 'f');
        self.visit_pat(&e.pat);
        self.1 = k;
        self.visit_expr(&e.expr);
        self.visit_block(&e.body);
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        let k = std::mem::replace(&mut self.1, 'm');
        self.visit_pat(&a.pat);
        self.1 = k;
        if let Some((_, g)) = &a.guard { self.visit_expr(g); }
        self.visit_expr(&a.body);
    }
    fn visit_expr_let(&mut self, e: &'a ExprLet) {
        let k = std::mem::replace(&mut self.1, 'm');
        self.visit_pat(&e.pat);
        self.1 = k;
        self.visit_expr(&e.expr);
    }
    fn visit_expr_closure(&mut self, e: &'a ExprClosure) {
        let k = std::mem::replace(&mut self.1, 'c');
        for i in &e.inputs { self.visit_pat(i); }
        self.1 = k;
        self.visit_expr(&e.body);
    }
}

pub fn binders(f: &ImplItemFn) -> Vec<String> {
    let mut b = Binders(vec![], 'p');
    b.visit_impl_item_fn(f);
    b.0
}
fn name(b: &str) -> &str { &b[2..] }
pub fn names(f: &ImplItemFn) -> Vec<String> { binders(f).iter().map(|n| name(n).to_string()).collect() }

/// the longest common subsequence of names, as pairs of indices
fn common(a: &[String], b: &[String]) -> Vec<(usize, usize)> {
    let mut n = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() { for j in (0..b.len()).rev() {
        n[i][j] = if a[i] == b[j] { n[i + 1][j + 1] + 1 } else { std::cmp::max(n[i + 1][j], n[i][j + 1]) };
    } }
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] { out.push((i, j)); i += 1; j += 1; } else if n[i + 1][j] >= n[i][j + 1] { i += 1; } else { j += 1; }
    }
    out
}

fn aligned(cur: &[String], base: &[String]) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut ends = common(cur, base);
    ends.push((cur.len(), base.len()));
    let (mut i, mut j) = (0, 0);
    for (x, y) in ends {
        for k in ['p', 'l', 'f', 'm', 'c'] {
            let of = |v: &[String]| v.iter().filter(|n| n.starts_with(k)).map(|n| name(n).to_string()).collect::<Vec<_>>();
            let (a, b) = (of(&cur[i..x]), of(&base[j..y]));
            if a.len() == b.len() { out.extend(a.into_iter().zip(b)); }
        }
        i = x + 1;
        j = y + 1;
    }
    // a name that is still in use, or stands for two, is not given
    let used = |n: &str| cur.iter().any(|c| name(c) == n);
    let all = out.clone();
    out.retain(|(c, b)| !used(b) && !base.iter().any(|n| name(n) == c) && all.iter().all(|(d, e)| (c == d) == (b == e)));
    out
}

pub fn load(p: &Path) -> BTreeMap<String, Vec<String>> {
    let mut m = BTreeMap::new();
    if let Ok(t) = fs::read_to_string(p) {
        for l in t.lines() {
            if let Some((k, v)) = l.split_once(" = ") { m.insert(k.to_string(), v.split_whitespace().map(String::from).collect()); }
            else if let Some(k) = l.strip_suffix(" =") { m.insert(k.to_string(), vec![]); }
        }
    }
    m
}

pub fn record(p: &Path, fs_: &[Func]) {
    let mut t = String::new();
    for f in fs_ { t.push_str(&format!("{} = {}\n", f.key, binders(&f.item).join(" "))); }
    fs::write(p, t).unwrap();
}

struct Ren<'m>(&'m BTreeMap<String, String>);
impl<'m> Ren<'m> {
    fn map(&self, i: &Ident) -> Option<Ident> { self.0.get(&i.to_string()).map(|n| Ident::new(n, i.span())) }
}
impl<'m> VisitMut for Ren<'m> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map(&p.ident) { p.ident = n; }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.qself.is_none() && e.path.segments.len() == 1 && e.path.leading_colon.is_none() {
            if let Some(n) = self.map(&e.path.segments[0].ident) { e.path.segments[0].ident = n; }
        }
    }
}

pub fn apply(f: &mut Func, base: &[String]) -> bool {
    let cur = binders(&f.item);
    if cur == base { return false; }
    if cur.len() != base.len() {
        let m: BTreeMap<String, String> = aligned(&cur, base).into_iter().collect();
        Ren(&m).visit_impl_item_fn_mut(&mut f.item);
        return !m.is_empty();
    }
    let (cur, base): (Vec<String>, Vec<String>) = (cur.iter().map(|n| name(n).to_string()).collect(), base.iter().map(|n| name(n).to_string()).collect());
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut back: BTreeMap<String, String> = BTreeMap::new();
    for (c, b) in cur.iter().zip(&base) {
        if let Some(x) = m.get(c) { if x != b { return false; } }
        if let Some(x) = back.get(b) { if x != c { return false; } }
        m.insert(c.clone(), b.clone());
        back.insert(b.clone(), c.clone());
    }
    m.retain(|a, b| a != b && a != "self");
    let mut r = Ren(&m);
    r.visit_impl_item_fn_mut(&mut f.item);
    true
}

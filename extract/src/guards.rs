//! The discipline of RefCell guards. The verified text reaches the content cell through a ghost permission, whose
//! borrows end with their last use; a guard lives to the end of the temporary's or variable's scope. This pass computes,
//! from the source as it is, what each guard's scope contains, and names the functions where something in it may
//! borrow the cell again in a conflicting way (or is a call of unknown code: a callback). Over-approximates: by name.
use crate::Func;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Copy, Default, PartialEq)]
struct Fx { read: bool, write: bool }
impl Fx {
    fn or(self, o: Fx) -> Fx { Fx { read: self.read || o.read, write: self.write || o.write } }
    /// whether this may not happen while a guard of the given kind is alive
    fn conflicts(self, exclusive: bool) -> bool { self.write || (exclusive && self.read) }
}
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }
/// a guard: whether it is exclusive
fn guard(e: &Expr) -> Option<bool> {
    if let Expr::MethodCall(m) = strip(e) {
        let n = m.method.to_string();
        if !m.args.is_empty() { return None; }
        if let Expr::Call(c) = strip(&m.receiver) { if let Expr::Path(p) = &*c.func { if p.path.segments.last().map_or(false, |s| s.ident == "from_utf8_lossy") { return None; } } }
        return match n.as_str() { "borrow" | "try_borrow" => Some(false), "borrow_mut" | "try_borrow_mut" => Some(true), _ => None };
    }
    None
}
/// the guard that a chain of method calls, derefs and references starts with
fn chain_guard(e: &Expr) -> bool {
    if guard(e).is_some() { return true; }
    match strip(e) { Expr::MethodCall(m) => chain_guard(&m.receiver), Expr::Unary(u) => chain_guard(&u.expr), Expr::Field(f) => chain_guard(&f.base), Expr::Index(i) => chain_guard(&i.expr), _ => false }
}
/// a let binding that keeps the guard itself alive
fn held(e: &Expr) -> Option<bool> {
    match strip(e) { Expr::Reference(r) => held(&r.expr), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => held(&u.expr), x => guard(x) }
}

/// everything that may happen in a piece of code
struct Effects<'a> { names: &'a BTreeMap<String, Fx>, fx: Fx, calls: BTreeSet<String>, skip: Option<*const Expr>, held: Option<String> }
const PURE: &[&str] = &["drop", "min", "max", "swap", "replace", "take"];
impl<'a> Effects<'a> {
    fn on_held(&self, e: &Expr) -> bool {
        match strip(e) { Expr::Path(p) => self.held.as_ref().map_or(false, |h| p.path.is_ident(h)), Expr::MethodCall(m) => self.on_held(&m.receiver), _ => false }
    }
    fn name(&mut self, n: &str) { self.calls.insert(n.to_string()); if let Some(f) = self.names.get(n) { self.fx = self.fx.or(*f); } }
}
impl<'a, 'b> Visit<'b> for Effects<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        if let Some(x) = guard(e) {
            if self.skip != Some(strip(e) as *const Expr) { self.fx = self.fx.or(Fx { read: true, write: x }); }
            if let Expr::MethodCall(m) = strip(e) { self.visit_expr(&m.receiver); }
            return;
        }
        // what is over before the guard comes to be
        if let Some(p) = self.skip {
            match e {
                Expr::If(i) if within(e, p) => {
                    if within(&i.cond, p) { visit::visit_expr(self, e); }
                    else if let Some((_, x)) = i.else_branch.as_ref().filter(|x| within(&x.1, p)) { self.visit_expr(x); }
                    else { self.visit_block(&i.then_branch); }
                    return;
                }
                Expr::Match(m) if within(e, p) && !within(&m.expr, p) => { for a in &m.arms { if within(&a.body, p) { self.visit_expr(&a.body); } } return; }
                _ => {}
            }
        }
        match e {
            Expr::MethodCall(m) => { if !chain_guard(&m.receiver) && !self.on_held(&m.receiver) { self.name(&m.method.to_string()); } }
            Expr::Call(c) => match strip(&c.func) {
                Expr::Path(p) => {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let known = self.names.contains_key(&last) || p.path.segments.len() > 1 || last.starts_with(|c: char| c.is_uppercase()) || PURE.contains(&last.as_str());
                    if known { self.name(&last) } else { self.fx = Fx { read: true, write: true }; }
                }
                _ => self.fx = Fx { read: true, write: true }, // a callback
            },
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_block(&mut self, b: &'b Block) {
        if let (Some(p), Some(Stmt::Expr(e, None))) = (self.skip, b.stmts.last()) { if within(e, p) { self.visit_expr(e); return; } }
        visit::visit_block(self, b);
    }
    fn visit_macro(&mut self, m: &'b Macro) { mac(m, &mut self.fx); }
    fn visit_item(&mut self, _: &'b Item) {}
}
fn mac(m: &Macro, fx: &mut Fx) { if m.tokens.to_string().contains("borrow") { *fx = Fx { read: true, write: true }; } }

/// what follows each guard
struct Scopes<'a> { names: &'a BTreeMap<String, Fx>, bad: bool }
impl<'a> Scopes<'a> {
    fn effects(&self, skip: Option<*const Expr>, f: &mut dyn FnMut(&mut Effects)) -> Fx {
        let mut e = Effects { names: self.names, fx: Fx::default(), calls: BTreeSet::new(), skip, held: None };
        f(&mut e);
        e.fx
    }
    /// a scope of temporaries: e, with the guards directly in it
    fn scope(&mut self, e: &Expr) {
        let mut d = Direct { out: vec![], inner: vec![], odd: false };
        d.visit_expr(e);
        if d.odd { self.bad = true; }
        for g in d.out {
            let x = guard(g).unwrap();
            if self.effects(Some(strip(g) as *const Expr), &mut |f| f.visit_expr(e)).conflicts(x) { self.bad = true; }
        }
        for i in d.inner { self.scope(i); }
        let mut b = Blocks { out: vec![] };
        b.visit_expr(e);
        for b in b.out { self.block(b, false); }
    }
    /// the statements of a block; the temporaries of its last expression belong to what is around it
    fn block(&mut self, b: &Block, outermost: bool) {
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => if let Some(init) = &l.init {
                    if let Some(x) = held(&init.expr) {
                        let name = match &l.pat { Pat::Ident(p) => Some(p.ident.to_string()), _ => None };
                        let rest: Vec<&Stmt> = b.stmts[i + 1..].iter().take_while(|s| !dropped(s, &name)).collect();
                        if self.effects(None, &mut |f| { f.held = name.clone(); for s in &rest { f.visit_stmt(s) } }).conflicts(x) { self.bad = true; }
                    } else { self.scope(&init.expr); }
                    if let Some((_, d)) = &init.diverge { self.scope(d); }
                },
                Stmt::Expr(e, semi) => if semi.is_some() || i + 1 < b.stmts.len() || outermost { self.scope(e) },
                Stmt::Macro(m) => { let mut fx = Fx::default(); mac(&m.mac, &mut fx); if fx.read { self.bad = true; } }
                Stmt::Item(_) => {}
            }
        }
    }
}
fn dropped(s: &Stmt, n: &Option<String>) -> bool {
    if let (Stmt::Expr(Expr::Call(c), _), Some(n)) = (s, n) {
        if let (Expr::Path(f), Some(Expr::Path(a))) = (&*c.func, c.args.first()) { return f.path.segments.last().map_or(false, |x| x.ident == "drop") && a.path.is_ident(n); }
    }
    false
}
/// the guards whose temporaries live in this very scope, and the scopes within it
struct Direct<'b> { out: Vec<&'b Expr>, inner: Vec<&'b Expr>, odd: bool }
impl<'b> Direct<'b> {
    fn operand(&mut self, e: &'b Expr) { // where a guard may stand
        if guard(e).is_some() { self.out.push(e); if let Expr::MethodCall(m) = strip(e) { self.visit_expr(&m.receiver); } } else { self.visit_expr(e); }
    }
    fn tail(&mut self, b: &'b Block) { if let Some(Stmt::Expr(e, None)) = b.stmts.last() { self.visit_expr(e); } }
}
impl<'b> Visit<'b> for Direct<'b> {
    fn visit_expr(&mut self, e: &'b Expr) {
        if guard(e).is_some() { self.odd = true; return; } // a guard is handed on
        match e {
            Expr::MethodCall(m) => { self.operand(&m.receiver); for a in &m.args { self.visit_expr(a); } }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.operand(&u.expr),
            Expr::Reference(r) => self.operand(&r.expr),
            Expr::Field(f) => self.operand(&f.base),
            Expr::If(i) => {
                if has_let(&i.cond) { self.visit_expr(&i.cond); } else { self.inner.push(&i.cond); }
                self.tail(&i.then_branch);
                if let Some((_, e)) = &i.else_branch { self.visit_expr(e); }
            }
            Expr::Let(l) => self.visit_expr(&l.expr),
            Expr::While(w) => if has_let(&w.cond) { self.visit_expr(&w.cond) } else { self.inner.push(&w.cond) },
            Expr::Match(m) => {
                self.operand(&m.expr);
                for a in &m.arms { self.visit_expr(&a.body); if let Some((_, g)) = &a.guard { self.inner.push(g); } }
            }
            Expr::ForLoop(f) => self.visit_expr(&f.expr),
            Expr::Loop(_) => {}
            Expr::Block(b) => self.tail(&b.block),
            Expr::Unsafe(b) => self.tail(&b.block),
            Expr::Closure(c) => self.inner.push(&c.body),
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) { let mut fx = Fx::default(); mac(m, &mut fx); if fx.read { self.odd = true; } }
}
fn has_let(e: &Expr) -> bool { match strip(e) { Expr::Let(_) => true, Expr::Binary(b) => has_let(&b.left) || has_let(&b.right), _ => false } }
/// the blocks of statements within an expression, not those within closures' bodies or conditions that are scopes of their own
struct Blocks<'b> { out: Vec<&'b Block> }
impl<'b> Visit<'b> for Blocks<'b> {
    fn visit_block(&mut self, b: &'b Block) {
        self.out.push(b);
        // blocks in the last expression
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() { self.visit_expr(e); }
    }
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Closure(_) => {}
            Expr::If(i) if !has_let(&i.cond) => { self.visit_block(&i.then_branch); if let Some((_, e)) = &i.else_branch { self.visit_expr(e); } }
            Expr::While(w) if !has_let(&w.cond) => self.visit_block(&w.body),
            _ => visit::visit_expr(self, e),
        }
    }
}

/// the functions whose guards may be in the way of what happens while they live
pub fn conflicts(funcs: &[Func]) -> Vec<String> {
    let mut names: BTreeMap<String, Fx> = funcs.iter().map(|f| (f.item.sig.ident.to_string(), Fx::default())).collect();
    loop {
        let old = names.clone();
        for f in funcs {
            let mut e = Effects { names: &old, fx: Fx::default(), calls: BTreeSet::new(), skip: None, held: None };
            e.visit_block(&f.item.block);
            let n = names.get_mut(&f.item.sig.ident.to_string()).unwrap();
            *n = n.or(e.fx);
        }
        if old == names { break; }
    }
    let mut bad = vec![];
    for f in funcs {
        let mut s = Scopes { names: &names, bad: false };
        s.block(&f.item.block, true);
        if s.bad { bad.push(f.key.clone()); }
    }
    bad
}

fn within(e: &Expr, p: *const Expr) -> bool {
    struct W(*const Expr, bool);
    impl<'b> Visit<'b> for W { fn visit_expr(&mut self, e: &'b Expr) { if e as *const Expr == self.0 { self.1 = true; } else { visit::visit_expr(self, e); } } }
    let mut w = W(p, false);
    w.visit_expr(e);
    w.1
}

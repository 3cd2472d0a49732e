//! The rewrite rules (R2..R17): every rule is a local syntactic transformation.
use crate::sidecar::{FnSpec, Sidecar};
use crate::{Func, Log};
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Lower<'a> {
    side: &'a Sidecar,
    #[allow(dead_code)]
    op_types: &'a [String],
}

pub struct Lowered {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub impl_generics: Generics,
    pub self_ty_full: Option<Type>,
    pub sig: Signature,
    pub block: Block,
    pub io: bool,
    pub raws: Vec<(String, String)>, // proof text inserted at __vxp!(n): (anchor, text)
    pub loops: usize,
    pub loop_kinds: Vec<String>,
    pub loop_text: String,
    /// early returns, where the function's proof has hints elsewhere than at its entry
    pub returns: usize,
    pub calls: BTreeSet<String>,
    pub missing_anchors: Vec<String>,
    pub unknown: bool,
    pub src_line: usize,
}

// ---------------------------------------------------------------- io functions

struct Names(BTreeSet<String>, bool);
impl<'a> Visit<'a> for Names {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if n == "canonicalize" || n == "write_all" { self.1 = true; }
        self.0.insert(format!(".{n}"));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() >= 2 && (s[s.len() - 2] == "fs" || s[s.len() - 2] == "File") { self.1 = true; }
        if s.len() >= 2 { self.0.insert(format!("{}::{}", s[s.len() - 2], s[s.len() - 1])); }
        else { self.0.insert(s[0].clone()); }
        visit::visit_expr_path(self, p);
    }
}

pub fn called_names(b: &Block) -> BTreeSet<String> {
    let mut n = Names(BTreeSet::new(), false);
    n.visit_block(b);
    n.0
}

pub fn io_functions(fs: &[Func]) -> BTreeSet<String> {
    let mut io = BTreeSet::new();
    let mut uses: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for f in fs {
        let mut n = Names(BTreeSet::new(), false);
        n.visit_block(&f.item.block);
        if n.1 { io.insert(f.key.clone()); }
        let me = f.self_ty.clone().unwrap_or_default();
        uses.insert(f.key.clone(), n.0.into_iter().map(|x| x.replace("Self::", &format!("{me}::"))).collect());
    }
    loop {
        let mut more = vec![];
        for (k, u) in &uses {
            if io.contains(k) { continue; }
            if io.iter().any(|c| u.contains(c) || c.split("::").nth(1).map_or(false, |m| m != "new" && u.contains(&format!(".{m}")))) {
                more.push(k.clone());
            }
        }
        if more.is_empty() { return io; }
        io.extend(more);
    }
}

// ---------------------------------------------------------------- helpers

fn ts(e: &impl quote::ToTokens) -> String {
    quote!(#e).to_string().replace(' ', "")
}

fn expr(t: TokenStream) -> Expr {
    match parse2::<Expr>(t.clone()) { Ok(e) => e, Err(er) => panic!("cannot build expression {t}: {er}") }
}

fn path_is(e: &Expr, segs: &[&str]) -> bool {
    if let Expr::Path(p) = e {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        return s.len() >= segs.len() && s[s.len() - segs.len()..].iter().zip(segs).all(|(a, b)| a == b);
    }
    false
}

fn call1<'e>(e: &'e Expr, segs: &[&str]) -> Option<&'e Expr> {
    if let Expr::Call(c) = e {
        if c.args.len() == 1 && path_is(&c.func, segs) { return c.args.first(); }
    }
    None
}

fn field_named<'e>(e: &'e Expr, name: &str) -> Option<&'e Expr> {
    if let Expr::Field(f) = e {
        if let Member::Named(n) = &f.member { if n == name { return Some(&f.base); } }
    }
    None
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = strip(e) {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
fn untyped(p: &Pat) -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() } }
fn closure0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = strip(e) { if c.inputs.is_empty() { return Some((*c.body).clone()); } }
    None
}

struct Returns(usize);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) { self.0 += 1; syn::visit::visit_expr_return(self, r); }
    fn visit_expr_try(&mut self, t: &'a ExprTry) { self.0 += 1; syn::visit::visit_expr_try(self, t); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_try(e: &Expr) -> bool {
    struct T(bool);
    impl<'a> syn::visit::Visit<'a> for T { fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; } }
    let mut t = T(false);
    syn::visit::Visit::visit_expr(&mut t, e);
    t.0
}
pub fn has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(e);
    h.0
}

/// `{ ...; if c { return X; } Y }` -> `{ ...; if c { X } else { Y } }` (used on closure bodies)
pub fn remove_tail_returns(e: &mut Expr) { lift_in(e, false) }
/// Every path of `e` ends in a `return`.
fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) if b.label.is_none() => block_diverges(&b.block),
        Expr::If(i) => block_diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| diverges(&x.1)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges(&a.body)),
        _ => false,
    }
}
fn block_diverges(b: &Block) -> bool {
    match b.stmts.last() { Some(Stmt::Expr(e, _)) => diverges(e), _ => false }
}

struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}
pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

/// Puts `rest` behind the one path through `e` that does not return (`pat`, if given, is bound to that path's value); no name bound on
/// that path may occur in `rest`. `used`: the names in `rest`, without those `pat` binds.
fn push_rest(e: &mut Expr, pat: Option<&Local>, rest: &[Stmt], used: &BTreeSet<String>) -> bool {
    fn clash<'a>(f: impl FnOnce(&mut Bound), used: &BTreeSet<String>) -> bool { let mut n = Bound(BTreeSet::new()); f(&mut n); n.0.iter().any(|x| used.contains(x)) }
    fn into_block(b: &mut Block, pat: Option<&Local>, rest: &[Stmt], used: &BTreeSet<String>) -> bool {
        if clash(|n| for s in &b.stmts { if let Stmt::Local(l) = s { n.visit_pat(&l.pat); } }, used) { return false; }
        match pat {
            None => {
                if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
                    if has_return(e) && pat.is_none() && nested(e) { return push_rest(e, None, rest, used) && { *semi = None; true }; }
                    if semi.is_none() { *semi = Some(Default::default()); }
                }
                b.stmts.extend(rest.iter().cloned());
                true
            }
            Some(l) => {
                let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return false };
                if nested(e) && has_return(e) { return push_rest(e, pat, rest, used); }
                let e = e.clone();
                b.stmts.pop();
                let mut l = l.clone();
                if let Some(i) = &mut l.init { *i.expr = e; i.diverge = None; }
                b.stmts.push(Stmt::Local(l));
                b.stmts.extend(rest.iter().cloned());
                true
            }
        }
    }
    fn nested(e: &Expr) -> bool { matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) }
    fn into_expr(e: &mut Expr, pat: Option<&Local>, rest: &[Stmt], used: &BTreeSet<String>) -> bool {
        if nested(e) && has_return(e) { return push_rest(e, pat, rest, used); }
        let mut b = match &*e { Expr::Block(b) if b.label.is_none() => b.block.clone(), Expr::Tuple(t) if t.elems.is_empty() && pat.is_none() => parse_quote!({}), e => parse_quote!({ #e }) };
        if !into_block(&mut b, pat, rest, used) { return false; }
        *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
        true
    }
    match e {
        Expr::Block(b) if b.label.is_none() => into_block(&mut b.block, pat, rest, used),
        Expr::If(i) => {
            let bound = clash(|n| n.visit_expr(&i.cond), used);
            let t = block_diverges(&i.then_branch);
            match &mut i.else_branch {
                None => {
                    if !t || pat.is_some() { return false; }
                    let bl = Block { brace_token: Default::default(), stmts: rest.to_vec() };
                    i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl }))));
                    true
                }
                Some((_, el)) => match (t, diverges(el)) {
                    (true, false) => into_expr(el, pat, rest, used),
                    (false, true) if !bound => into_block(&mut i.then_branch, pat, rest, used),
                    _ => false,
                },
            }
        }
        Expr::Match(m) => {
            let open: Vec<usize> = (0..m.arms.len()).filter(|i| !diverges(&m.arms[*i].body)).collect();
            if open.len() != 1 { return false; }
            let a = &mut m.arms[open[0]];
            if clash(|n| { n.visit_pat(&a.pat); if let Some((_, g)) = &a.guard { n.visit_expr(g); } }, used) { return false; }
            into_expr(&mut a.body, pat, rest, used)
        }
        _ => false,
    }
}

/// The `?` that `e` evaluates first, if it is the only one: (its operand, `e` with the operand's value named `vx_q`).
fn first_try(e: &Expr) -> Option<(Expr, Expr)> {
    let mut all = Returns(0);
    all.visit_expr(e);
    if all.0 != 1 { return None; }
    fn go(e: &mut Expr) -> Option<Expr> {
        match e {
            Expr::Try(t) => { let o = (*t.expr).clone(); *e = parse_quote!(vx_q); Some(o) }
            Expr::MethodCall(m) => go(&mut m.receiver),
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(_)) => go(&mut c.args[0]),
            Expr::Binary(b) => go(&mut b.left),
            Expr::Field(f) => go(&mut f.base),
            Expr::Paren(p) => go(&mut p.expr),
            Expr::Reference(r) => go(&mut r.expr),
            Expr::Unary(u) => go(&mut u.expr),
            _ => None,
        }
    }
    let mut e = e.clone();
    let o = go(&mut e)?;
    Some((o, e))
}

/// Removes `return`s (and, where the result is an Option, `?`s) by moving what follows into the path that goes on.
pub fn lift_returns(b: &mut Block, opt: bool) {
    for i in 0..b.stmts.len() {
        let last = i + 1 == b.stmts.len();
        if !last {
            let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
            let mut used = BTreeSet::new();
            for s in &rest { idents(quote!(#s), &mut used); }
            let new = match &b.stmts[i] {
                Stmt::Expr(e, _) if !diverges(e) && has_return(e) => {
                    let mut e = e.clone();
                    if push_rest(&mut e, None, &rest, &used) { Some(e) } else { None }
                }
                Stmt::Local(l) if l.init.is_some() => {
                    let init = l.init.as_ref().unwrap();
                    let mut bound = Bound(BTreeSet::new());
                    bound.visit_pat(&l.pat);
                    let u: BTreeSet<String> = used.difference(&bound.0).cloned().collect();
                    if let Some((_, d)) = &init.diverge {
                        let (p, e) = (&l.pat, &init.expr);
                        if diverges(d) && !has_return(e) { Some(parse_quote!(match #e { #p => { #(#rest)* } _ => #d })) } else { None }
                    } else if !has_return(&init.expr) {
                        None
                    } else if let (true, Some((o, e))) = (opt, first_try(&init.expr)) {
                        let mut l = l.clone();
                        *l.init.as_mut().unwrap().expr = e;
                        if has_return(&o) { None } else { Some(parse_quote!(match #o { Some(vx_q) => { #l #(#rest)* } None => None })) }
                    } else {
                        let mut e = (*init.expr).clone();
                        if push_rest(&mut e, Some(l), &rest, &u) { Some(e) } else { None }
                    }
                }
                _ => None,
            };
            if let Some(mut e) = new {
                b.stmts.truncate(i);
                lift_in(&mut e, opt);
                b.stmts.push(Stmt::Expr(e, None));
                return;
            }
        } else if let Stmt::Expr(e, semi) = &mut b.stmts[i] {
            let was_ret = diverges(e);
            lift_in(e, opt);
            if was_ret { *semi = None; }
        }
    }
}
fn lift_in(e: &mut Expr, opt: bool) {
    match e {
        Expr::Block(b) => lift_returns(&mut b.block, opt),
        Expr::If(i) => {
            lift_returns(&mut i.then_branch, opt);
            if let Some((_, el)) = &mut i.else_branch { lift_in(el, opt); }
        }
        Expr::Match(m) => for a in &mut m.arms { lift_in(&mut a.body, opt); },
        Expr::Return(r) => if let Some(v) = r.expr.take() { *e = *v; lift_in(e, opt); } else { *e = expr(quote!(())); },
        _ if opt => if let Some((o, f)) = first_try(e) {
            if !has_return(&o) {
                *e = parse_quote!(match #o { Some(vx_q) => #f, None => None });
            }
        },
        _ => {}
    }
}

/// `match e { P(x) if g => A, .., P(_) or _ => B }` -> `match e { P(x) => if g { A } else { B }, .. }`, where the arms in between cannot match what P matches
fn unguard(m: &mut ExprMatch) -> bool {
    fn head(p: &Pat) -> Option<String> {
        match p {
            Pat::TupleStruct(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(char::is_uppercase) => Some(i.ident.to_string()),
            Pat::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        }
    }
    struct Names(Vec<String>, bool);
    impl<'a> Visit<'a> for Names {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); }
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { if self.0.contains(&i.to_string()) { self.1 = true; } } }
        fn visit_macro(&mut self, _: &'a Macro) { self.1 = true; }
    }
    let mut any = false;
    for i in (0..m.arms.len()).rev() {
        let Some((_, g)) = m.arms[i].guard.clone() else { continue };
        if matches!(&*g, Expr::Let(_)) { continue; }
        let Some(h) = head(&m.arms[i].pat) else { continue };
        if let Pat::TupleStruct(t) = &m.arms[i].pat { if !t.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_) | Pat::Rest(_) | Pat::Tuple(_))) { continue; } }
        let mut to = None;
        for j in i + 1..m.arms.len() {
            let p = &m.arms[j].pat;
            let wild = match p { Pat::Wild(_) => true, Pat::TupleStruct(t) => head(p).as_ref() == Some(&h) && t.elems.iter().all(|x| matches!(x, Pat::Wild(_) | Pat::Rest(_))), _ => head(p).as_ref() == Some(&h) };
            if wild { if m.arms[j].guard.is_none() { to = Some(j); } break; }
            match head(p) { Some(k) if k != h => {} _ => break }
        }
        let Some(j) = to else { continue };
        let mut n = Names(vec![], false);
        n.visit_pat(&m.arms[i].pat);
        n.visit_expr(&m.arms[j].body);
        if n.1 { continue; }
        let (a, b) = (m.arms[i].body.clone(), m.arms[j].body.clone());
        let block = |e: &Expr| -> Expr { match e { Expr::Block(b) if b.label.is_none() => e.clone(), _ => parse_quote!({ #e }) } };
        let (a, b) = (block(&a), block(&b));
        m.arms[i].guard = None;
        m.arms[i].comma = Some(Default::default());
        *m.arms[i].body = parse_quote!(if #g #a else #b);
        any = true;
    }
    any
}
/// `a..b`, `a..=b` and their reversals, as stub iterators over numbers
fn range_iter(e: &Expr) -> Option<Expr> {
    let (r, rev) = match strip(e) {
        Expr::Range(r) => (r.clone(), false),
        Expr::MethodCall(m) if m.method == "rev" => if let Expr::Range(r) = strip(&m.receiver) { (r.clone(), true) } else { return None },
        _ => return None,
    };
    let (a, b) = (r.start.clone()?, r.end.clone()?);
    let closed = matches!(r.limits, RangeLimits::Closed(_));
    Some(match (closed, rev) {
        (false, false) => expr(quote!(vx_range(#a, #b))),
        (false, true) => expr(quote!(vx_range_rev(#a, #b))),
        (true, false) => expr(quote!(vx_range_incl(#a, #b))),
        (true, true) => expr(quote!(vx_range_incl_rev(#a, #b))),
    })
}

/// the literals of a pattern that is made of string literals only
fn str_pattern(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) => if let Lit::Str(_) = &l.lit { let l = &l.lit; Some(vec![expr(quote!(#l))]) } else { None },
        Pat::Or(o) => { let mut r = vec![]; for c in &o.cases { r.extend(str_pattern(c)?); } Some(r) }
        Pat::Paren(p) => str_pattern(&p.pat),
        _ => None,
    }
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs(e, p, g))
    }
}

struct CallbackVars(BTreeMap<String, String>);
impl CallbackVars {
    fn bind(&mut self, pat: &Pat, scrut: &Expr) {
        struct F(Option<String>);
        impl<'a> Visit<'a> for F {
            fn visit_expr_field(&mut self, f: &'a ExprField) {
                if let Member::Named(n) = &f.member { if n == "change_callback" { self.0 = Some(ts(&*f.base)); } }
                visit::visit_expr_field(self, f);
            }
        }
        let mut f = F(None);
        f.visit_expr(scrut);
        if let Some(base) = f.0 {
            struct P(Vec<String>);
            impl<'a> Visit<'a> for P { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); } }
            let mut p = P(vec![]);
            p.visit_pat(pat);
            for n in p.0 { self.0.insert(n, base.clone()); }
        }
    }
}
impl<'a> Visit<'a> for CallbackVars {
    fn visit_expr_let(&mut self, l: &'a ExprLet) { self.bind(&l.pat, &l.expr); visit::visit_expr_let(self, l); }
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        for a in &m.arms { self.bind(&a.pat, &m.expr); }
        visit::visit_expr_match(self, m);
    }
}

// ---------------------------------------------------------------- types

pub struct Types<'l> { pub log: &'l mut Log, pub module: String }
impl<'l> VisitMut for Types<'l> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = ts(t);
        if s == "Rc<RefCell<GapBuffer>>" { *t = parse_quote!(CellHandle); self.log.hit("R3 Rc<RefCell<GapBuffer>> -> CellHandle + ghost CellPerm"); return; }
        let s = s.replace("self::operation::Operation", "Operation").replace("crate::buffer::operation::Operation", "Operation").replace("super::Operation", "Operation").replace("operation::Operation", "Operation");
        if s == "Box<dynOperation>" || s == "Box<dynOperation+'static>" { *t = parse_quote!(DynOperation); self.log.hit("R4 Box<dyn Operation> -> DynOperation"); return; }
        if s == "Box<dynFn(Position)>" { *t = parse_quote!(ChangeCallback); self.log.hit("R5 Box<dyn Fn(Position)> -> ChangeCallback"); return; }
        if s == "Vec<u8>" { *t = parse_quote!(ByteVec); self.log.hit("R17 Vec<u8> -> ByteVec"); return; }
        if s == "mutfmt::Formatter" { }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() == 2 && s[0] == "fmt" {
            if s[1] == "Result" { *p = parse_quote!(VxFmtResult); return; }
            if s[1] == "Formatter" { *p = parse_quote!(VxFormatter); return; }
        }
        if s.len() == 2 && s[0] == "io" && s[1] == "Result" { p.segments = p.segments.iter().skip(1).cloned().collect(); p.segments[0].ident = format_ident!("VxIoResult"); }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        let s = ts(b);
        if s == "AsRef<str>" { *b = parse_quote!(VxAsRef); self.log.hit("R13 AsRef<str>/Into<String> bounds -> stub traits"); return; }
        if s == "Into<String>" { *b = parse_quote!(VxIntoString); self.log.hit("R13 AsRef<str>/Into<String> bounds -> stub traits"); return; }
        visit_mut::visit_trait_bound_mut(self, b);
    }
}

// ---------------------------------------------------------------- bodies

struct Body<'x> {
    log: &'x mut Log,
    side: &'x Sidecar,
    self_ty: String,
    module: String,
    io: &'x BTreeSet<String>,
    callbacks: BTreeMap<String, String>,
    /// parameters of type Distance
    distances: BTreeSet<String>,
    n: BTreeMap<String, usize>,
    raws: Vec<(String, String)>,
    ret_option: bool,
}

impl<'x> Body<'x> {
    fn fresh(&mut self, p: &str) -> Ident { let n = self.n.entry(p.to_string()).or_insert(0); let i = format_ident!("vx_{}{}", p, *n); *n += 1; i }
    fn raw(&mut self, anchor: &str, text: String) -> Stmt {
        let n = self.raws.len();
        self.raws.push((anchor.to_string(), text));
        let l = Literal(n);
        let t = l.0;
        let lit = proc_macro2::Literal::usize_unsuffixed(t);
        parse_quote!(__vxp!(#lit);)
    }
    fn is_cursor(&self, e: &Expr) -> bool {
        let e = strip(e);
        if self.self_ty == "Cursor" { if let Expr::Path(p) = e { if p.path.is_ident("self") { return true; } } }
        if field_named(e, "cursor").is_some() { return true; }
        if let Expr::Path(p) = e { if p.path.is_ident("cursor") { return true; } }
        false
    }
    fn is_bytevec(&self, e: &Expr) -> bool {
        if self.module != "gap_buffer" { return false; }
        let e = strip(e);
        if let Some(b) = field_named(e, "data") { return ts(b) == "self"; }
        ts(e) == "bytes"
    }
}
struct Literal(usize);

impl<'x> VisitMut for Body<'x> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        Types { log: self.log, module: self.module.clone() }.visit_type_mut(t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // R3: `let d = Rc::new(RefCell::new(E));`
        let mut out = vec![];
        for st in b.stmts.drain(..) {
            match &st {
                Stmt::Local(l) if l.init.is_some() => {
                    let init = &l.init.as_ref().unwrap().expr;
                    if let Some(a) = call1(init, &["Rc", "new"]).and_then(|x| call1(x, &["RefCell", "new"])) {
                        if let Pat::Ident(pi) = &l.pat {
                            let (n, m) = (&pi.ident, &pi.mutability);
                            self.log.hit("R3 Rc<RefCell<GapBuffer>> -> CellHandle + ghost CellPerm");
                            out.push(parse_quote!(let (#m #n, vx_perm) = vx_new_cell(#a);));
                            continue;
                        }
                    }
                    out.push(st);
                }
                _ => out.push(st),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
            let arg = if m.args.len() == 1 { m.args.first().cloned() } else { None };
            if let (true, Some(a)) = (m.method == "get_or_insert_with", &arg) {
                let v = closure0(a).or_else(|| if let Expr::Path(_) = a { Some(parse_quote!(#a())) } else { None });
                if let Some(v) = v {
                    self.log.hit("R6 Option::get_or_insert_with as a statement -> if");
                    let r = &m.receiver;
                    *s = parse_quote!(if #r.is_none() { #r = Some(#v); });
                }
            } else if let (true, Some((p, b))) = (m.method == "for_each", arg.as_ref().and_then(closure1)) {
                if !has_return(&b) {
                    self.log.hit("R6 .for_each(f) as a statement -> for loop");
                    let r = &m.receiver;
                    *s = parse_quote!(for #p in #r { #b; });
                }
            }
        }
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let semi = m.semi_token;
            if m.mac.path.is_ident("__vxp") || m.mac.path.is_ident("__vxl") { return; }
            *s = Stmt::Expr(e, semi.or(Some(Default::default())));
            if semi.is_none() { if let Stmt::Expr(_, sm) = s { *sm = None; } }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e {
            if unguard(m) { self.log.hit("R20 match guard -> `if` in the arm, whose `else` is the arm that would be tried next"); }
        }
        // ---------------- rules that look at a whole pattern before its parts
        match e {
            Expr::Unsafe(u) => {
                self.log.hit("R17 `unsafe` keyword dropped around the set_len stub");
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: inner, .. }) if field_named(strip(inner), "cursor").is_some() => {
                self.log.hit("R14 Cursor Deref -> .position");
                let i = strip(inner).clone();
                *e = expr(quote!(#i.position));
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = strip(&r.expr) {
                    if let Expr::Range(_) = strip(&ix.index) { *e = Expr::Index(ix.clone()); }
                }
            }
            _ => {}
        }
        if let Expr::Call(c) = e {
            if let Some(a) = call1(&Expr::Call(c.clone()), &["Box", "new"]) {
                self.log.hit("R4 Box::new(op) -> op.vx_dyn()");
                let a = a.clone();
                *e = expr(quote!(#a.vx_dyn()));
            } else if c.args.is_empty() && path_is(&c.func, &["Default", "default"]) && !self.self_ty.is_empty() {
                self.log.hit("R19 Default::default() resolved to the type's own function");
                let t = format_ident!("{}", self.self_ty);
                *c.func = parse_quote!(#t::default);
            } else if path_is(&c.func, &["String", "with_capacity"]) {
                self.log.hit("R8 String::with_capacity -> String::new");
                *e = expr(quote!(String::new()));
                return;
            } else if path_is(&c.func, &["String", "from_utf8_lossy"]) {
                self.log.hit("R8 String::from_utf8_lossy -> stub");
                *c.func = parse_quote!(vx_from_utf8_lossy);
            } else if path_is(&c.func, &["fs", "read_to_string"]) || path_is(&c.func, &["File", "create"]) || path_is(&c.func, &["fs", "write"]) {
                self.log.hit("R11 file system calls take the ghost file-system token");
                let f = if path_is(&c.func, &["File", "create"]) { quote!(vx_file_create) } else if path_is(&c.func, &["fs", "write"]) { quote!(vx_fs_write) } else { quote!(vx_fs_read_to_string) };
                *c.func = expr(f);
                c.args.push(parse_quote!(Tracked(&mut *vx_fs)));
            } else if c.args.len() == 2 && (path_is(&c.func, &["cmp", "min"]) || path_is(&c.func, &["cmp", "max"])) {
                self.log.hit("R6/R8 std str/Vec method -> stub of the same meaning (vx_ prefix)");
                *c.func = if path_is(&c.func, &["cmp", "min"]) { parse_quote!(vx_min) } else { parse_quote!(vx_max) };
            } else if c.args.len() == 1 && path_is(&c.func, &["mem", "take"]) {
                self.log.hit("R19 Default::default() resolved to the type's own function");
                *c.func = parse_quote!(mem::replace);
                c.args.push(parse_quote!(vx_default()));
            } else if path_is(&c.func, &["Cursor", "new"]) && c.args.len() == 2 {
                self.log.hit("R3 Cursor::new takes the ghost permission");
                c.args.push(parse_quote!(vx_perm));
            } else if let Expr::Path(p) = &*c.func {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = if s.len() >= 2 { let t = if s[s.len() - 2] == "Self" { self.self_ty.clone() } else { s[s.len() - 2].clone() }; format!("{}::{}", t, s[s.len() - 1]) } else { s[0].clone() };
                if self.io.contains(&key) { c.args.push(parse_quote!(Tracked(&mut *vx_fs))); }
                if s.len() == 1 {
                    if let Some(base) = self.callbacks.get(&s[0]).cloned() {
                        self.log.hit("R5 callback(p) -> stub call + ghost log of (position, text)");
                        let f = (*c.func).clone();
                        let a = c.args.clone();
                        let v = self.fresh("arg");
                        let base_d = if base == "self" { "self".to_string() } else { base.clone() };
                        let st = self.raw("callback", format!("proof {{ {base_d}.notified@ = {base_d}.notified@.push(({v}, {base_d}.text())); }}"));
                        let mut ae = expr(quote!(#a));
                        self.visit_expr_mut(&mut ae);
                        *e = expr(quote!({ let #v = #ae; #f.vx_call(#v); #st }));
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            // map(..).collect()
            if name == "collect" {
                if let Expr::MethodCall(inner) = strip(&m.receiver) {
                    if inner.method == "map" {
                        if let Some((p, b)) = inner.args.first().and_then(closure1) {
                            if !has_return(&b) {
                                self.log.hit("R6 .map(f).collect() -> loop");
                                let mut recv = (*inner.receiver).clone();
                                let mut b = b;
                                self.visit_expr_mut(&mut recv);
                                self.visit_expr_mut(&mut b);
                                let (it, v) = (self.fresh("it"), self.fresh("out"));
                                *e = expr(quote!(match #recv { mut #it => { let mut #v = Vec::new(); while let Some(#p) = #it.next() { #v.push(#b); } #v } }));
                                return;
                            }
                        }
                    }
                }
            }
            if name == "count" {
                if let Expr::MethodCall(inner) = strip(&m.receiver) {
                    let one = inner.args.first().and_then(|a| match a { Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value()), Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) if t.value().chars().count() == 1 => t.value().chars().next(), _ => None });
                    if let (true, Some(c)) = (inner.method == "matches", one) {
                        self.log.hit("R6 .matches(c).count() -> .chars().filter(c).count()");
                        let r = &inner.receiver;
                        *e = expr(quote!(#r.chars().filter(|&vx_c| vx_c == #c).count()));
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if name == "fold" && m.args.len() == 2 {
                if let Expr::Closure(c) = &m.args[1] {
                    if let (2, Some(Pat::Ident(acc)), false) = (c.inputs.len(), c.inputs.first().map(untyped), has_return(&c.body)) {
                        self.log.hit("R6 .fold(a, f) -> loop");
                        let (mut recv, mut init, mut b, p) = ((*m.receiver).clone(), m.args[0].clone(), (*c.body).clone(), untyped(&c.inputs[1]));
                        for x in [&mut recv, &mut init, &mut b] { self.visit_expr_mut(x); }
                        let (it, acc) = (self.fresh("it"), acc.ident);
                        *e = expr(quote!(match #recv { mut #it => { let mut #acc = #init; while let Some(#p) = #it.next() { #acc = #b; } #acc } }));
                        return;
                    }
                }
            }
            if name == "then_with" && m.args.len() == 1 {
                if let Some(b) = closure0(&m.args[0]) {
                    if !has_return(&b) {
                        self.log.hit("R6 Ordering::then_with -> match");
                        let (mut recv, mut b) = ((*m.receiver).clone(), b);
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut b);
                        let v = self.fresh("v");
                        *e = expr(quote!((match #recv { Ordering::Equal => #b, #v => #v })));
                        return;
                    }
                }
            }
            if name == "contains" && m.args.len() == 1 {
                if let Expr::Range(r) = strip(&m.receiver) {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        self.log.hit("R6 (a..b).contains(&x) -> a <= x && x < b");
                        let (mut a, mut b) = ((**a).clone(), (**b).clone());
                        let mut x = match &m.args[0] { Expr::Reference(r) => (*r.expr).clone(), x => parse_quote!(*#x) };
                        for y in [&mut a, &mut b, &mut x] { self.visit_expr_mut(y); }
                        let (va, vb, vx) = (self.fresh("v"), self.fresh("v"), self.fresh("v"));
                        let cmp = if matches!(r.limits, RangeLimits::Closed(_)) { quote!(#vx <= #vb) } else { quote!(#vx < #vb) };
                        *e = expr(quote!({ let #va = #a; let #vb = #b; let #vx = #x; #va <= #vx && #cmp }));
                        return;
                    }
                }
            }
            if name == "count" {
                if let Expr::MethodCall(inner) = strip(&m.receiver) {
                    if inner.method == "filter" {
                        if let Some((p, b)) = inner.args.first().and_then(closure1) {
                            self.log.hit("R6 .filter(f).count() -> loop");
                            let mut recv = (*inner.receiver).clone();
                            let mut b = b;
                            self.visit_expr_mut(&mut recv);
                            self.visit_expr_mut(&mut b);
                            let (it, v, x) = (self.fresh("it"), self.fresh("n"), self.fresh("x"));
                            let bind = match &p { Pat::Reference(r) => { let q = &r.pat; quote!(let #q = #x;) } q => quote!(let #q = &#x;) };
                            *e = expr(quote!(match #recv { mut #it => { let mut #v: usize = 0; while let Some(#x) = #it.next() { #bind if #b { #v += 1; } } #v } }));
                            return;
                        }
                    }
                }
            }
            if name == "position" && m.args.len() == 1 {
                if let Some((p, b)) = m.args.first().and_then(closure1) {
                    self.log.hit("R6 .position(f) -> loop");
                    let mut recv = (*m.receiver).clone();
                    let mut b = b;
                    self.visit_expr_mut(&mut recv);
                    self.visit_expr_mut(&mut b);
                    let (it, v, r) = (self.fresh("it"), self.fresh("n"), self.fresh("r"));
                    *e = expr(quote!(match #recv { mut #it => { let mut #v: usize = 0; let mut #r: Option<usize> = None; while let Some(#p) = #it.next() { if #b { #r = Some(#v); break; } #v += 1; } #r } }));
                    return;
                }
            }
            if name == "partition_point" && m.args.len() == 1 {
                if let Some((p, b)) = m.args.first().and_then(closure1) {
                    self.log.hit("R6 .partition_point(f) -> linear loop, and the obligation that the slice is partitioned");
                    let mut recv = (*m.receiver).clone();
                    let mut b = b;
                    self.visit_expr_mut(&mut recv);
                    self.visit_expr_mut(&mut b);
                    let (it, v, past) = (self.fresh("it"), self.fresh("n"), self.fresh("past"));
                    *e = expr(quote!(match #recv.vx_iter() { mut #it => { let mut #v: usize = 0; let mut #past = false; while let Some(#p) = #it.next() { if #b { vx_partitioned(#past); #v += 1; } else { #past = true; } } #v } }));
                    return;
                }
            }
            if name == "cloned" && m.args.is_empty() {
                self.log.hit("R6 Option combinator with closure -> match");
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                let v = self.fresh("v");
                *e = expr(quote!((match #recv { Some(#v) => Some(#v.clone()), None => None })));
                return;
            }
            if (name == "map_or" || name == "map_or_else") && m.args.len() == 2 {
                let d = if name == "map_or" { Some(m.args[0].clone()) } else { closure0(&m.args[0]) };
                if let (Some(mut d), Some((p, mut b))) = (d, closure1(&m.args[1])) {
                    if has_return(&b) { remove_tail_returns(&mut b); }
                    if !has_return(&b) && !has_return(&d) {
                        self.log.hit("R6 Option combinator with closure -> match");
                        let mut recv = (*m.receiver).clone();
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut d);
                        self.visit_expr_mut(&mut b);
                        let w = self.fresh("w");
                        *e = if name == "map_or" { expr(quote!({ let #w = #d; match #recv { Some(#p) => #b, None => #w } })) } else { expr(quote!((match #recv { Some(#p) => #b, None => #d }))) };
                        return;
                    }
                }
            }
            if (name == "then_some" || name == "ok_or") && m.args.len() == 1 {
                self.log.hit("R6 Option combinator with closure -> match");
                let (mut recv, mut b) = ((*m.receiver).clone(), m.args[0].clone());
                self.visit_expr_mut(&mut recv);
                self.visit_expr_mut(&mut b);
                let (v, w) = (self.fresh("v"), self.fresh("w"));
                *e = if name == "then_some" { expr(quote!({ let #w = #b; if #recv { Some(#w) } else { None } })) } else { expr(quote!({ let #w = #b; match #recv { Some(#v) => Ok(#v), None => Err(#w) } })) };
                return;
            }
            if name == "unwrap_or_default" && m.args.is_empty() {
                self.log.hit("R6 Option combinator with closure -> match");
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                let v = self.fresh("v");
                *e = expr(quote!((match #recv { Some(#v) => #v, None => vx_default() })));
                return;
            }
            // byte vectors: copies between slices
            if (name == "copy_from_slice" || name == "clone_from_slice" || name == "fill") && m.args.len() == 1 {
                if let Expr::Index(ix) = strip(&m.receiver) {
                    if let (true, Expr::Range(r)) = (self.is_bytevec(&ix.expr), strip(&ix.index)) {
                        if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                            self.log.hit("R17 byte vector copies -> stubs");
                            let mut base = (*ix.expr).clone();
                            let mut a = r.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                            let mut b = r.end.as_deref().cloned().unwrap_or_else(|| { let x = &base; parse_quote!(#x.len()) });
                            let mut src = m.args[0].clone();
                            for x in [&mut base, &mut a, &mut b, &mut src] { self.visit_expr_mut(x); }
                            *e = if name == "fill" { expr(quote!(#base.vx_fill(#a, #b, #src))) } else { expr(quote!(#base.vx_copy_from_slice(#a, #b, #src))) };
                            return;
                        }
                    }
                }
            }
            if name == "copy_within" && m.args.len() == 2 && self.is_bytevec(&m.receiver) {
                if let Expr::Range(r) = strip(&m.args[0]) {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        self.log.hit("R17 byte vector copies -> stubs");
                        let mut base = (*m.receiver).clone();
                        let mut a = r.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                        let mut b = r.end.as_deref().cloned().unwrap_or_else(|| { let x = &base; parse_quote!(#x.len()) });
                        let mut d = m.args[1].clone();
                        for x in [&mut base, &mut a, &mut b, &mut d] { self.visit_expr_mut(x); }
                        *e = expr(quote!(#base.vx_copy_within(#a, #b, #d)));
                        return;
                    }
                }
            }
            let one = m.args.first().cloned();
            if let Some(arg) = one {
                if let Some((p, mut b)) = closure1(&arg) {
                    if ["map", "and_then", "filter", "is_some_and", "is_none_or", "map_err"].contains(&name.as_str()) {
                        if has_return(&b) { remove_tail_returns(&mut b); }
                        if !has_return(&b) {
                            let mut recv = (*m.receiver).clone();
                            self.visit_expr_mut(&mut recv);
                            self.visit_expr_mut(&mut b);
                            let r = match name.as_str() {
                                "map" => Some(quote!((match #recv { Some(#p) => Some(#b), None => None }))),
                                "and_then" => Some(quote!((match #recv { Some(#p) => #b, None => None }))),
                                "is_some_and" => Some(quote!((match #recv { Some(#p) => #b, None => false }))),
                                "is_none_or" => Some(quote!((match #recv { Some(#p) => #b, None => true }))),
                                "map_err" => { let v = self.fresh("v"); Some(quote!((match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }))) }
                                "filter" => {
                                    let v = self.fresh("v");
                                    let bind = match &p { Pat::Reference(r) => { let q = &r.pat; quote!(let #q = #v;) } q => quote!(let #q = &#v;) };
                                    Some(quote!((match #recv { Some(#v) => { let vx_keep = { #bind #b }; if vx_keep { Some(#v) } else { None } } None => None })))
                                }
                                _ => None,
                            };
                            if let Some(r) = r {
                                self.log.hit("R6 Option combinator with closure -> match");
                                *e = expr(r);
                                return;
                            }
                        }
                    }
                } else if let Some(mut b) = closure0(&arg) {
                    if !has_return(&b) && ["then", "ok_or_else"].contains(&name.as_str()) {
                        let mut recv = (*m.receiver).clone();
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut b);
                        let v = self.fresh("v");
                        self.log.hit("R6 Option combinator with closure -> match");
                        *e = if name == "then" { expr(quote!((if #recv { Some(#b) } else { None }))) } else { expr(quote!((match #recv { Some(#v) => Ok(#v), None => Err(#b) }))) };
                        return;
                    }
                    if !has_return(&b) && ["or_else", "unwrap_or_else"].contains(&name.as_str()) {
                        let mut recv = (*m.receiver).clone();
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut b);
                        let v = self.fresh("v");
                        self.log.hit("R6 Option combinator with closure -> match");
                        *e = if name == "or_else" { expr(quote!((match #recv { Some(#v) => Some(#v), None => #b }))) } else { expr(quote!((match #recv { Some(#v) => #v, None => #b }))) };
                        return;
                    }
                } else if name == "or" {
                    let mut recv = (*m.receiver).clone();
                    let mut b = arg;
                    self.visit_expr_mut(&mut recv);
                    self.visit_expr_mut(&mut b);
                    let v = self.fresh("v");
                    let w = self.fresh("w");
                    self.log.hit("R6 Option combinator with closure -> match");
                    *e = expr(quote!({ let #w = #b; match #recv { Some(#v) => Some(#v), None => #w } }));
                    return;
                }
            }
        }
        // for loops
        if let Expr::ForLoop(f) = e {
            {
                let range = range_iter(&f.expr);
                let pat = (*f.pat).clone();
                let mut body = f.body.clone();
                let mut it_e = (*f.expr).clone();
                // element-wise mutable iteration over a vector -> index loop
                let mut rev = false;
                let mut target: Option<Expr> = None;
                {
                    let mut x = strip(&it_e);
                    while let Expr::Reference(r) = x {
                        if r.mutability.is_some() { if let Expr::MethodCall(_) = strip(&r.expr) { x = strip(&r.expr); continue; } target = Some((*r.expr).clone()); }
                        break;
                    }
                    if let Expr::MethodCall(m) = x {
                        let mut y = m;
                        if y.method == "rev" { if let Expr::MethodCall(z) = strip(&y.receiver) { rev = true; y = z; } }
                        if y.method == "iter_mut" { target = Some((*y.receiver).clone()); } else { rev = false; }
                    }
                }
                if let Some(mut t) = target {
                    self.log.hit("R6 for x in v.iter_mut() [.rev()] -> index loop");
                    self.visit_expr_mut(&mut t);
                    self.visit_block_mut(&mut body);
                    let i = self.fresh("i");
                    let stmts = &body.stmts;
                    *e = if rev {
                        expr(quote!({ let mut #i: usize = #t.len(); while #i > 0 { #i -= 1; { let #pat = &mut #t[#i]; #(#stmts)* } } }))
                    } else {
                        expr(quote!({ let mut #i: usize = 0; while #i < #t.len() { { let #pat = &mut #t[#i]; #(#stmts)* } #i += 1; } }))
                    };
                    return;
                }
                self.log.hit("R6 for p in <iterator> -> while let Some(p) = it.next()");
                if let Some(r) = range { it_e = r; }
                if let Expr::Reference(r) = &it_e { it_e = { let x = &r.expr; expr(quote!(#x.iter())) }; }
                self.visit_expr_mut(&mut it_e);
                self.visit_block_mut(&mut body);
                let it = self.fresh("it");
                let label = f.label.clone();
                *e = expr(quote!(match #it_e { mut #it => { #label while let Some(#pat) = #it.next() #body } }));
                return;
            }
        }
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| str_pattern(&a.pat).is_some()) && m.arms.iter().all(|a| str_pattern(&a.pat).is_some() || matches!(&a.pat, Pat::Wild(_) | Pat::Ident(_))) {
                self.log.hit("R6 match on string literals -> if chain");
                let mut m = m.clone();
                self.visit_expr_mut(&mut m.expr);
                let v = self.fresh("v");
                let mut chain: Option<TokenStream> = None;
                for a in m.arms.iter_mut().rev() {
                    self.visit_expr_mut(&mut a.body);
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    let body = &a.body;
                    let guard = a.guard.as_ref().map(|(_, g)| quote!(&& (#g)));
                    chain = Some(match (str_pattern(&a.pat), &a.pat, chain) {
                        (Some(l), _, Some(c)) => quote!(if (#(#v == #l)||*) #guard { #body } else { #c }),
                        (Some(_), _, None) => quote!({ #body }),
                        (None, Pat::Ident(i), c) => { let i = &i.ident; match (guard, c) { (Some(g), Some(c)) => quote!({ let #i = #v; if true #g { #body } else { #c } }), _ => quote!({ let #i = #v; #body }) } }
                        (None, _, c) => match (guard, c) { (Some(g), Some(c)) => quote!(if true #g { #body } else { #c }), _ => quote!({ #body }) },
                    });
                }
                let (x, c) = (&m.expr, chain.unwrap());
                *e = expr(quote!({ let #v = #x; #c }));
                return;
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                if let Ok(MatchesArgs(mut x, pat, guard)) = m.mac.parse_body::<MatchesArgs>() {
                    self.log.hit("R6 matches! -> match");
                    self.visit_expr_mut(&mut x);
                    let g = guard.map(|mut g| { self.visit_expr_mut(&mut g); g });
                    *e = if let Some(l) = str_pattern(&pat) {
                        let v = self.fresh("v");
                        let g = g.map(|g| quote!(&& (#g)));
                        expr(quote!({ let #v = #x; (#(#v == #l)||*) #g }))
                    } else {
                        let g = g.map(|g| quote!(if #g));
                        expr(quote!((match #x { #pat #g => true, _ => false })))
                    };
                    return;
                }
            }
        }
        // Position + Distance
        if let Expr::Binary(b) = e {
            let dist = match strip(&b.right) { Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.distances.contains(&i.to_string())), r => call1(r, &["Distance", "of_str"]).is_some() };
            if dist && matches!(b.op, BinOp::Add(_) | BinOp::AddAssign(_)) {
                self.log.hit("R14 Position + Distance -> the type's own add function");
                let (l, r) = (&b.left, &b.right);
                let mut n = if matches!(b.op, BinOp::Add(_)) { expr(quote!((#l).add(#r))) } else { expr(quote!((#l).add_assign(#r))) };
                if let Expr::MethodCall(m) = &mut n { self.visit_expr_mut(&mut m.receiver); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
                *e = n;
                return;
            }
            // E.get(..n) == Some(S): slices are compared by content
            if let (BinOp::Eq(_), Expr::MethodCall(g), Some(y)) = (&b.op, strip(&b.left), call1(&b.right, &["Some"])) {
                if g.method == "get" && g.args.len() == 1 && matches!(strip(&g.args[0]), Expr::Range(_)) {
                    self.log.hit("R6 Option combinator with closure -> match");
                    let (mut l, mut y) = ((*b.left).clone(), y.clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut y);
                    let (v, w) = (self.fresh("v"), self.fresh("w"));
                    *e = expr(quote!((match (#l, #y) { (Some(#v), #w) => #v == #w, (None, _) => false })));
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            self.log.hit("R10 `?` -> match/return with error conversion stub");
            let mut inner = (*t.expr).clone();
            self.visit_expr_mut(&mut inner);
            if self.ret_option {
                let v = self.fresh("v");
                *e = expr(quote!((match #inner { Some(#v) => #v, None => return None })));
                return;
            }
            let (v, er) = (self.fresh("v"), self.fresh("e"));
            *e = expr(quote!((match #inner { Ok(#v) => #v, Err(#er) => return Err(#er.vx_into()) })));
            return;
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("write") {
                if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut it = args.into_iter();
                    let f = it.next();
                    let s = it.next();
                    if let (Some(f), Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. }))) = (f, s) {
                        let parts: Vec<String> = s.value().split("{}").map(String::from).collect();
                        let vals: Vec<Expr> = it.collect();
                        if parts.len() == vals.len() + 1 && parts.iter().all(|p| !p.contains('{') && !p.contains('}')) {
                            self.log.hit("R9 write!(f, \"{}..\") -> formatter stub calls");
                            let mut st: Vec<TokenStream> = vec![];
                            for (i, p) in parts.iter().enumerate() {
                                if !p.is_empty() { st.push(quote!(#f.vx_write_str(#p);)); }
                                if i < vals.len() { let mut v = vals[i].clone(); self.visit_expr_mut(&mut v); st.push(quote!(#f.vx_write(&#v);)); }
                            }
                            *e = expr(quote!({ #(#st)* VxFmtResult::Ok(()) }));
                            return;
                        }
                    }
                }
            }
        }

        visit_mut::visit_expr_mut(self, e);

        // ---------------- rules applied after the parts were rewritten
        match e {
            Expr::Assign(a) => {
                if let Expr::MethodCall(m) = &*a.left {
                    if m.method == "vx_get" {
                        let (b, i, v) = (&m.receiver, m.args.first().unwrap(), &a.right);
                        *e = expr(quote!(#b.vx_set(#i, #v)));
                    }
                }
            }
            Expr::Index(ix) => {
                let base = (*ix.expr).clone();
                match strip(&ix.index) {
                    Expr::Range(r) => {
                        self.log.hit("R8 slicing expression -> vx_slice stub");
                        let (s, en) = (r.start.clone(), r.end.clone());
                        let closed = matches!(r.limits, RangeLimits::Closed(_));
                        if !closed {
                            *e = match (s, en) {
                                (Some(s), Some(en)) => expr(quote!(#base.vx_slice(#s, #en))),
                                (Some(s), None) => expr(quote!(#base.vx_slice_from(#s))),
                                (None, Some(en)) => expr(quote!(#base.vx_slice_to(#en))),
                                (None, None) => expr(quote!(#base.vx_slice_from(0))),
                            };
                        }
                    }
                    i if self.is_bytevec(&base) => {
                        self.log.hit("R17 byte vector indexing -> vx_get/vx_set");
                        let i = i.clone();
                        *e = expr(quote!(#base.vx_get(#i)));
                    }
                    _ => {}
                }
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    if (n == "line" || n == "offset") && self.is_cursor(&f.base) {
                        self.log.hit("R14 Cursor Deref -> .position");
                        let (b, n) = (f.base.clone(), n.clone());
                        *e = expr(quote!(#b.position.#n));
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                match name.as_str() {
                    "borrow" | "borrow_mut" => {
                        if let Some(b) = field_named(strip(&recv), "data") {
                            self.log.hit("R3 .data.borrow()/.borrow_mut() -> access through the ghost permission");
                            let b = b.clone();
                            let perm = if self.is_cursor(&b) { quote!(#b.perm) } else { quote!(#b.cursor.perm) };
                            *e = if name == "borrow" { expr(quote!(#recv.vx_borrow(Tracked(#perm.borrow())))) } else { expr(quote!(#recv.vx_borrow_mut(Tracked(#perm.borrow_mut())))) };
                        } else {
                            m.method = format_ident!("vx_str_borrow");
                        }
                    }
                    "chars" | "lines" | "split" | "char_indices" | "bytes" | "split_whitespace" | "rsplit" | "into_owned" | "ends_with" | "starts_with" | "strip_suffix" | "is_char_boundary" | "to_owned" | "to_vec" | "reverse" | "capacity" | "set_len" | "reserve"
                    | "find" | "rfind" | "contains" | "trim_end_matches" | "trim_start_matches" | "strip_prefix" | "split_at" | "repeat" | "trim" | "trim_start" | "trim_end"
                    | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" | "eq_ignore_ascii_case" | "swap" if name != "reverse" || m.args.is_empty() => {
                        self.log.hit("R6/R8 std str/Vec method -> stub of the same meaning (vx_ prefix)");
                        m.method = format_ident!("vx_{}", if name == "to_vec" { "to_owned" } else { &name });
                    }
                    "get" if m.args.len() == 1 && matches!(strip(&m.args[0]), Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_))) => {
                        self.log.hit("R8 slicing expression -> vx_slice stub");
                        if let Expr::Range(r) = strip(&m.args[0]).clone() {
                            let a = r.start.map(|x| *x).unwrap_or(parse_quote!(0));
                            *e = match r.end { Some(b) => expr(quote!(#recv.vx_get_range(#a, #b))), None => expr(quote!(#recv.vx_get_from(#a))) };
                            return;
                        }
                    }
                    "iter" => { m.method = format_ident!("vx_iter"); }
                    "as_deref" => { m.method = format_ident!("as_ref"); }
                    "into" if m.args.is_empty() => { m.method = format_ident!("vx_into"); }
                    "as_ref" if self.module == "gap_buffer" || (self.module == "replace" && ts(&recv) == "content") => { m.method = format_ident!("vx_as_ref"); }
                    "canonicalize" | "write_all" => { m.args.push(parse_quote!(Tracked(&mut *vx_fs))); }
                    _ => {}
                }
                if let Expr::MethodCall(m) = e {
                    let name = m.method.to_string();
                    if name != "new" && self.io.iter().any(|k| k.split("::").nth(1) == Some(&name)) && name != "canonicalize" && name != "write_all" {
                        self.log.hit("R11 file system calls take the ghost file-system token");
                        m.args.push(parse_quote!(Tracked(&mut *vx_fs)));
                    }
                }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                let n = if n == "Self" { self.self_ty.clone() } else { n };
                if self.side.inits.contains_key(&n) && s.rest.is_none() {
                    self.log.hit("R15 ghost fields added to struct literals");
                    // marker field, replaced when printing
                    let id = format_ident!("__vxinit_{}", n);
                    s.fields.push(parse_quote!(#id: ()));
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- loops and anchors

struct Loops<'x> {
    n: usize,
    spec: &'x FnSpec,
    raws: &'x mut Vec<(String, String)>,
    kinds: Vec<String>,
    used: BTreeSet<String>,
}
fn raw_stmt(raws: &mut Vec<(String, String)>, a: &str, t: &str) -> Stmt {
    let n = proc_macro2::Literal::usize_unsuffixed(raws.len());
    raws.push((a.to_string(), t.to_string()));
    parse_quote!(__vxp!(#n);)
}
impl<'x> Loops<'x> {
    fn texts(&mut self, a: &str) -> Vec<Stmt> {
        let v: Vec<(String, String)> = self.spec.anchors.iter().filter(|(n, _)| n == a).cloned().collect();
        if !v.is_empty() { self.used.insert(a.to_string()); }
        v.iter().map(|(a, t)| raw_stmt(self.raws, a, t)).collect()
    }
    fn enter(&mut self, body: &mut Block, kind: &str) -> usize {
        let k = self.n;
        self.n += 1;
        self.kinds.push(kind.to_string());
        let lit = proc_macro2::Literal::usize_unsuffixed(k);
        let start = self.texts(&format!("loop{k}.start"));
        let end = self.texts(&format!("loop{k}.end"));
        let mut st: Vec<Stmt> = vec![parse_quote!(__vxl!(#lit);)];
        st.extend(start);
        let old: Vec<Stmt> = body.stmts.drain(..).collect();
        // a trailing expression of a loop body has type (): make room behind it
        for (i, s) in old.iter().enumerate() {
            let mut s = s.clone();
            if i + 1 == old.len() && !end.is_empty() { if let Stmt::Expr(_, semi) = &mut s { if semi.is_none() { *semi = Some(Default::default()); } } }
            st.push(s);
        }
        st.extend(end);
        body.stmts = st;
        k
    }
}
impl<'x> VisitMut for Loops<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut st in b.stmts.drain(..) {
            let first = self.n;
            self.visit_stmt_mut(&mut st);
            let is_loop = matches!(&st, Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), _));
            if is_loop {
                out.extend(self.texts(&format!("loop{first}.before")));
                let after = self.texts(&format!("loop{first}.after"));
                if !after.is_empty() { if let Stmt::Expr(_, s) = &mut st { if s.is_none() { *s = Some(Default::default()); } } }
                out.push(st);
                out.extend(after);
            } else { out.push(st); }
        }
        b.stmts = out;
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.visit_expr_mut(&mut w.cond);
        let kind = if matches!(&*w.cond, Expr::Let(_)) { "while-let" } else { "while" };
        self.enter(&mut w.body, kind);
        self.visit_block_mut(&mut w.body);
    }
    fn visit_expr_for_loop_mut(&mut self, w: &mut ExprForLoop) {
        self.visit_expr_mut(&mut w.expr);
        self.enter(&mut w.body, "for");
        self.visit_block_mut(&mut w.body);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        self.enter(&mut w.body, "loop");
        self.visit_block_mut(&mut w.body);
    }
}

/// the text of the outermost loops
struct LoopText(String);
impl<'a> Visit<'a> for LoopText {
    fn visit_expr_while(&mut self, w: &'a ExprWhile) { self.0.push_str(&ts(w)); }
    fn visit_expr_for_loop(&mut self, w: &'a ExprForLoop) { self.0.push_str(&ts(w)); }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) { self.0.push_str(&ts(w)); }
}

/// shallow call names of a statement: calls that are not inside a nested block's statements
struct Shallow(Vec<String>);
impl<'a> Visit<'a> for Shallow {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { if let Some(s) = p.path.segments.last() { self.0.push(s.ident.to_string()); } }
    }
}
struct CallAnchors<'x> {
    spec: &'x FnSpec,
    raws: &'x mut Vec<(String, String)>,
    counts: BTreeMap<String, usize>,
    used: BTreeSet<String>,
}
impl<'x> VisitMut for CallAnchors<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts: Vec<Stmt> = b.stmts.drain(..).collect();
        let len = stmts.len();
        for (ix, mut st) in stmts.into_iter().enumerate() {
            let mut sh = Shallow(vec![]);
            sh.visit_stmt(&st);
            let mut before = vec![];
            let mut after = vec![];
            for c in sh.0 {
                let k = self.counts.entry(c.clone()).or_insert(0);
                let (b_, a_) = (format!("before {c}#{k}"), format!("after {c}#{k}"));
                *k += 1;
                for (n, t) in self.spec.anchors.iter() {
                    if *n == b_ { self.used.insert(n.clone()); before.push((n.clone(), t.clone())); }
                    if *n == a_ { self.used.insert(n.clone()); after.push((n.clone(), t.clone())); }
                }
            }
            for (n, t) in before { out.push(raw_stmt(self.raws, &n, &t)); }
            if let Stmt::Expr(Expr::Return(_), _) = &st {
                for (n, t) in self.spec.anchors.iter() { if n == "return" { self.used.insert(n.clone()); out.push(raw_stmt(self.raws, n, t)); } }
            }
            self.visit_stmt_mut(&mut st);
            if !after.is_empty() {
                let tail = ix + 1 == len;
                if let Stmt::Expr(e, semi) = &mut st {
                    if semi.is_none() {
                        if tail && !matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_)) {
                            // value of the block: keep it in a temporary
                            let ex = e.clone();
                            out.push(parse_quote!(let vx_tail = #ex;));
                            for (n, t) in after { out.push(raw_stmt(self.raws, &n, &t)); }
                            out.push(Stmt::Expr(parse_quote!(vx_tail), None));
                            continue;
                        }
                    }
                }
                out.push(st);
                for (n, t) in after { out.push(raw_stmt(self.raws, &n, &t)); }
            } else {
                out.push(st);
            }
        }
        b.stmts = out;
    }
}

impl<'a> Lower<'a> {
    pub fn new(side: &'a Sidecar, op_types: &'a [String]) -> Self { Lower { side, op_types } }

    pub fn function(&mut self, f: Func, io: &BTreeSet<String>, log: &mut Log) -> Lowered {
        let default = FnSpec::default();
        let spec = self.side.fns.get(&f.key).unwrap_or(&default);
        let mut sig = f.item.sig.clone();
        let mut block = f.item.block.clone();
        let mut calls = called_names(&block);
        if let Some(t) = &f.self_ty { calls = calls.into_iter().map(|c| c.replace("Self::", &format!("{t}::"))).collect(); }
        let mut cb = CallbackVars(BTreeMap::new());
        cb.visit_block(&block);
        let mut raws = vec![];
        {
            let mut t = Types { log, module: f.module.clone() };
            t.visit_signature_mut(&mut sig);
        }
        {
            let mut b = Body {
                log, side: self.side, self_ty: f.self_ty.clone().unwrap_or_default(), module: f.module.clone(),
                io, callbacks: cb.0,
                distances: f.item.sig.inputs.iter().filter_map(|i| match i { FnArg::Typed(t) if ts(&t.ty) == "Distance" => match &*t.pat { Pat::Ident(p) => Some(p.ident.to_string()), _ => None }, _ => None }).collect(),
                n: BTreeMap::new(), raws: vec![],
                ret_option: matches!(&sig.output, ReturnType::Type(_, t) if ts(&**t).starts_with("Option<")),
            };
            b.visit_block_mut(&mut block);
            raws.append(&mut b.raws);
        }
        let returns = if spec.loops.is_empty() && spec.anchors.iter().all(|(n, _)| n == "entry") { 0 } else { let mut r = Returns(0); r.visit_block(&block); r.0 };
        let loop_text = { let mut t = LoopText(String::new()); t.visit_block(&block); t.0 };
        // loops
        let mut used = BTreeSet::new();
        let (loops, kinds);
        {
            let mut l = Loops { n: 0, spec, raws: &mut raws, kinds: vec![], used: BTreeSet::new() };
            l.visit_block_mut(&mut block);
            loops = l.n;
            kinds = l.kinds;
            used.extend(l.used);
        }
        {
            let mut c = CallAnchors { spec, raws: &mut raws, counts: BTreeMap::new(), used: BTreeSet::new() };
            c.visit_block_mut(&mut block);
            used.extend(c.used);
        }
        // entry / exit
        let entry: Vec<(String, String)> = spec.anchors.iter().filter(|(n, _)| n == "entry").cloned().collect();
        let exit: Vec<(String, String)> = spec.anchors.iter().filter(|(n, _)| n == "exit").cloned().collect();
        let mut stmts: Vec<Stmt> = vec![];
        for (n, t) in &entry { used.insert(n.clone()); stmts.push(raw_stmt(&mut raws, n, t)); }
        let mut body: Vec<Stmt> = block.stmts.drain(..).collect();
        if !exit.is_empty() {
            used.insert("exit".into());
            let has_value = !matches!(sig.output, ReturnType::Default);
            let tail_expr = matches!(body.last(), Some(Stmt::Expr(_, None)));
            if tail_expr && has_value {
                if let Some(Stmt::Expr(e, None)) = body.pop() { body.push(parse_quote!(let vx_ret = #e;)); }
                for (n, t) in &exit { body.push(raw_stmt(&mut raws, n, t)); }
                body.push(Stmt::Expr(parse_quote!(vx_ret), None));
            } else {
                if let Some(Stmt::Expr(_, semi)) = body.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
                for (n, t) in &exit { body.push(raw_stmt(&mut raws, n, t)); }
            }
        }
        stmts.extend(body);
        block.stmts = stmts;
        let mut missing: Vec<String> = vec![];
        for (n, _) in &spec.anchors { if !used.contains(n) { missing.push(n.clone()); } }
        for k in spec.loops.keys() { if *k >= loops { missing.push(format!("loop {k}")); } }
        let is_io = io.contains(&f.key);
        Lowered {
            unknown: !self.side.fns.contains_key(&f.key),
            key: f.key, module: f.module, self_ty: f.self_ty, trait_name: f.trait_name, impl_generics: f.generics, self_ty_full: f.self_ty_full,
            sig, block, io: is_io, raws, loops, loop_kinds: kinds, loop_text, returns, calls, missing_anchors: missing, src_line: f.src_line,
        }
    }
}

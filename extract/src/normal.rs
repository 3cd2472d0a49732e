//! R21: forms that mean the same, brought to one: modules within a file, imported variants and renamed imports, text constants,
//! functions within functions, closures that are only called, loops over an iterator that is only stepped.
use crate::lower::idents;
use crate::{is_test, Log};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// The items of a file, those of its inline modules included.
pub fn flatten(items: Vec<Item>, log: &mut Log) -> Vec<Item> {
    let mut r = vec![];
    for i in items {
        match i {
            Item::Mod(m) if m.content.is_some() && !is_test(&m.attrs) => {
                log.hit("R21 items of an inline module");
                r.extend(flatten(m.content.unwrap().1, log));
            }
            i => r.push(i),
        }
    }
    r
}

fn upper(s: &str) -> bool { s.starts_with(|c: char| c.is_uppercase()) }
fn uses(t: &UseTree, parent: &str, out: &mut BTreeMap<String, String>) {
    match t {
        UseTree::Path(p) => uses(&p.tree, &p.ident.to_string(), out),
        UseTree::Name(n) => if upper(parent) && n.ident != "self" { out.insert(n.ident.to_string(), format!("{parent}::{}", n.ident)); },
        UseTree::Rename(n) => if n.rename != "_" {
            let o = if n.ident == "self" { parent.to_string() } else if upper(parent) { format!("{parent}::{}", n.ident) } else { n.ident.to_string() };
            out.insert(n.rename.to_string(), o);
        },
        UseTree::Group(g) => for t in &g.items { uses(t, parent, out); },
        UseTree::Glob(_) => if parent == "Ordering" { for v in ["Less", "Equal", "Greater"] { out.insert(v.into(), format!("Ordering::{v}")); } },
    }
}
/// names that `use` gives to something else, or to a variant
struct Names<'m>(&'m BTreeMap<String, String>);
impl<'m> VisitMut for Names<'m> {
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none() {
            if let Some(n) = self.0.get(&p.segments[0].ident.to_string()) {
                let mut q: Path = parse_str(n).unwrap();
                q.segments.last_mut().unwrap().arguments = p.segments[0].arguments.clone();
                for s in p.segments.iter().skip(1) { q.segments.push(s.clone()); }
                *p = q;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.subpat.is_none() && i.by_ref.is_none() {
                if let Some(n) = self.0.get(&i.ident.to_string()).filter(|n| n.contains("::")) {
                    let q: Path = parse_str(n).unwrap();
                    *p = Pat::Path(ExprPath { attrs: vec![], qself: None, path: q });
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
pub fn imports(items: &mut Vec<Item>, log: &mut Log) {
    let mut m = BTreeMap::new();
    for i in items.iter() { if let Item::Use(u) = i { uses(&u.tree, "", &mut m); } }
    // what is also an item, or a type known by that name, stays
    m.retain(|k, v| k != v);
    if m.is_empty() { return; }
    log.hit("R21 names resolved that `use` renames or takes out of an enum");
    for i in items.iter_mut() { Names(&m).visit_item_mut(i); }
}

// ---------------------------------------------------------------- constants that hold a text

/// `const NAME: &str = "..."` (and associated constants that are literals), by name, `Type::NAME`
pub fn texts(items: &[Item], out: &mut BTreeMap<String, Lit>) {
    fn lit(e: &Expr) -> Option<Lit> { match e { Expr::Lit(l) => Some(l.lit.clone()), Expr::Paren(p) => lit(&p.expr), Expr::Group(g) => lit(&g.expr), _ => None } }
    for i in items {
        match i {
            Item::Const(c) => if let (Some(l), Type::Reference(_)) = (lit(&c.expr), &*c.ty) { out.insert(c.ident.to_string(), l); },
            Item::Static(c) => if let (Some(l), Type::Reference(_)) = (lit(&c.expr), &*c.ty) { out.insert(c.ident.to_string(), l); },
            Item::Impl(im) if im.trait_.is_none() => {
                let t = crate::type_name(&im.self_ty).unwrap_or_default();
                for it in &im.items { if let ImplItem::Const(c) = it { if let Some(mut l) = lit(&c.expr) {
                    // a number gets the constant's type
                    if let Lit::Int(n) = &l { if n.suffix().is_empty() { let ty = &c.ty; l = Lit::Int(LitInt::new(&format!("{}{}", n.base10_digits(), quote!(#ty)), n.span())); } }
                    out.insert(format!("{t}::{}", c.ident), l);
                } } }
            }
            _ => {}
        }
    }
}
pub struct Texts<'m> { pub texts: &'m BTreeMap<String, Lit>, pub me: String, pub hits: usize }
impl<'m> Texts<'m> {
    fn find(&self, p: &Path) -> Option<Lit> {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = s.len();
        let key = if n >= 2 && s[n - 2] == "Self" { format!("{}::{}", self.me, s[n - 1]) } else if n >= 2 && upper(&s[n - 2]) { format!("{}::{}", s[n - 2], s[n - 1]) } else { s[n - 1].clone() };
        self.texts.get(&key).cloned()
    }
    fn tokens(&mut self, t: TokenStream) -> TokenStream {
        t.into_iter().map(|x| match x {
            TokenTree::Ident(i) => match self.texts.get(&i.to_string()) { Some(l) => { self.hits += 1; quote!(#l).into_iter().next().unwrap() } None => TokenTree::Ident(i) },
            TokenTree::Group(g) => { let s = self.tokens(g.stream()); TokenTree::Group(Group::new(g.delimiter(), s)) }
            x => x,
        }).collect()
    }
}
impl<'m> VisitMut for Texts<'m> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.qself.is_none() { if let Some(l) = self.find(&p.path) { self.hits += 1; *e = Expr::Lit(ExprLit { attrs: vec![], lit: l }); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let l = match p { Pat::Ident(i) if i.subpat.is_none() => self.texts.get(&i.ident.to_string()).cloned(), Pat::Path(q) => self.find(&q.path), _ => None };
        if let Some(l) = l { self.hits += 1; *p = Pat::Lit(ExprLit { attrs: vec![], lit: l }); return; }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(std::mem::take(&mut m.tokens)); }
}

// ---------------------------------------------------------------- within functions

/// functions within a function
pub fn nested(b: &mut Block, out: &mut Vec<ItemFn>) {
    struct N<'o>(&'o mut Vec<ItemFn>);
    impl<'o> VisitMut for N<'o> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            for s in std::mem::take(&mut b.stmts) {
                match s { Stmt::Item(Item::Fn(f)) => self.0.push(f), s => b.stmts.push(s) }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    N(out).visit_block_mut(b);
}

fn uses_of(b: &Block, n: &str) -> usize {
    fn count(t: TokenStream, n: &str) -> usize {
        t.into_iter().map(|x| match x { TokenTree::Ident(i) => (i == n) as usize, TokenTree::Group(g) => count(g.stream(), n), _ => 0 }).sum()
    }
    count(quote!(#b), n)
}
struct Binds(BTreeMap<String, usize>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { *self.0.entry(p.ident.to_string()).or_insert(0) += 1; visit::visit_pat_ident(self, p); }
}

struct Calls<'c> { name: String, closure: &'c ExprClosure, n: usize }
impl<'c> VisitMut for Calls<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) || c.args.len() != self.closure.inputs.len() { return; }
            let mut lets: Vec<Stmt> = vec![];
            let mut temps: Vec<Stmt> = vec![];
            for (p, a) in self.closure.inputs.iter().zip(&c.args) {
                // every argument is evaluated before any parameter is bound
                let t = format_ident!("vx_c{}_{}", self.n, lets.len());
                temps.push(parse_quote!(let #t = #a;));
                match p { Pat::Type(p) => { let (q, ty) = (&p.pat, &p.ty); lets.push(parse_quote!(let #q: #ty = #t;)); } p => lets.push(parse_quote!(let #p = #t;)) }
            }
            if let (1, [Pat::Ident(_) | Pat::Type(_)]) = (c.args.len(), &self.closure.inputs.iter().cloned().collect::<Vec<_>>()[..]) {
                let a = &c.args[0];
                temps.clear();
                lets = match &self.closure.inputs[0] { Pat::Type(p) => { let (q, ty) = (&p.pat, &p.ty); vec![parse_quote!(let #q: #ty = #a;)] } p => vec![parse_quote!(let #p = #a;)] };
            }
            self.n += 1;
            let body = &self.closure.body;
            *e = parse_quote!({ #(#temps)* #(#lets)* #body });
        }
    }
}
fn called(b: &Block, n: &str) -> usize {
    struct C<'n>(&'n str, usize);
    impl<'a, 'n> Visit<'a> for C<'n> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) { self.1 += 1; }
            visit::visit_expr_call(self, c);
        }
    }
    let mut c = C(n, 0);
    c.visit_block(b);
    c.1
}

/// closures that are bound to a name and only called: the call is the body
pub fn closures(b: &mut Block, log: &mut Log) {
    struct Find(Option<(String, ExprClosure)>, BTreeSet<String>);
    impl<'a> Visit<'a> for Find {
        fn visit_local(&mut self, l: &'a Local) {
            if let (None, Pat::Ident(p), Some(i)) = (&self.0, &l.pat, &l.init) {
                if let (Expr::Closure(c), None, true) = (&*i.expr, &p.mutability, i.diverge.is_none()) {
                    if !self.1.contains(&p.ident.to_string()) { self.0 = Some((p.ident.to_string(), c.clone())); return; }
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut seen = BTreeSet::new();
    loop {
        let mut f = Find(None, seen.clone());
        f.visit_block(b);
        let Some((name, c)) = f.0 else { return };
        seen.insert(name.clone());
        if c.capture.is_some() || c.asyncness.is_some() || crate::lower::has_return(&c.body) || crate::lower::has_try(&c.body) { continue; }
        // what the body mentions means the same where it is called: each name it takes from outside is bound once, and not assigned to
        let mut own = Binds(BTreeMap::new());
        own.visit_expr_closure(&c);
        let mut all = Binds(BTreeMap::new());
        all.visit_block(b);
        let mut body = BTreeSet::new();
        let e = &c.body;
        idents(quote!(#e), &mut body);
        let mut params = Binds(BTreeMap::new());
        for p in &c.inputs { params.visit_pat(p); }
        // (a name that the closure binds itself, other than as a parameter, is bound nowhere else)
        let once = |n: &String| params.0.contains_key(n) && params.0.get(n) == own.0.get(n) || all.0.get(n).copied().unwrap_or(0) <= std::cmp::max(1, own.0.get(n).copied().unwrap_or(0));
        if !body.iter().all(once) || uses_of(b, &name) != called(b, &name) + 1 || all.0.get(&name) != Some(&1) { continue; }
        log.hit("R21 call of a local closure replaced by its body");
        struct Drop<'n>(&'n str);
        impl<'n> VisitMut for Drop<'n> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Ident(p), .. }) if p.ident == self.0));
                visit_mut::visit_block_mut(self, b);
            }
        }
        Drop(&name).visit_block_mut(b);
        Calls { name, closure: &c, n: 0 }.visit_block_mut(b);
    }
}

/// `let mut it = E; while let Some(p) = it.next() { .. }` and `loop { let p = match it.next() { Some(x) => x, None => break }; .. }`
/// are `for p in E { .. }`, if nothing else looks at `it`
pub fn loops(b: &mut Block, log: &mut Log) {
    struct L<'l>(&'l mut Log);
    fn step<'e>(e: &'e Expr) -> Option<String> {
        if let Expr::MethodCall(m) = e { if m.method == "next" && m.args.is_empty() { if let Expr::Path(p) = &*m.receiver { return p.path.get_ident().map(|i| i.to_string()); } } }
        None
    }
    fn some(p: &Pat) -> Option<Pat> {
        if let Pat::TupleStruct(t) = p { if t.path.is_ident("Some") && t.elems.len() == 1 { return Some(t.elems[0].clone()); } }
        None
    }
    /// `break` without a label, or a block that is only that
    fn breaks(e: &Expr) -> bool {
        match e {
            Expr::Break(x) => x.label.is_none() && x.expr.is_none(),
            Expr::Block(x) => x.block.stmts.len() == 1 && matches!(&x.block.stmts[0], Stmt::Expr(y, _) if breaks(y)),
            _ => false,
        }
    }
    fn as_for(e: &Expr) -> Option<(String, Pat, Vec<Stmt>)> {
        match e {
            Expr::While(w) if w.label.is_none() => {
                let Expr::Let(l) = &*w.cond else { return None };
                Some((step(&l.expr)?, some(&l.pat)?, w.body.stmts.clone()))
            }
            Expr::Loop(l) if l.label.is_none() => {
                if l.body.stmts.len() == 1 {
                    if let Stmt::Expr(Expr::Match(m), _) = &l.body.stmts[0] {
                        let it = step(&m.expr)?;
                        if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) { return None; }
                        let y = m.arms.iter().find(|a| some(&a.pat).is_some())?;
                        let n = m.arms.iter().find(|a| some(&a.pat).is_none())?;
                        if !breaks(&n.body) { return None; }
                        let body = match &*y.body { Expr::Block(x) if x.label.is_none() => x.block.stmts.clone(), x => vec![Stmt::Expr(x.clone(), Some(Default::default()))] };
                        return Some((it, some(&y.pat)?, body));
                    }
                }
                let Stmt::Local(f) = l.body.stmts.first()? else { return None };
                let init = f.init.as_ref()?;
                let rest = l.body.stmts[1..].to_vec();
                match (&*init.expr, &init.diverge) {
                    (e, Some((_, d))) => { if !breaks(d) { return None; } Some((step(e)?, some(&f.pat)?, rest)) }
                    (Expr::Match(m), None) => {
                        let it = step(&m.expr)?;
                        if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) { return None; }
                        let y = m.arms.iter().find(|a| some(&a.pat).is_some())?;
                        let n = m.arms.iter().find(|a| some(&a.pat).is_none())?;
                        let (Pat::Ident(x), Expr::Path(v)) = (some(&y.pat)?, &*y.body) else { return None };
                        if !breaks(&n.body) || !v.path.is_ident(&x.ident) { return None; }
                        let p = match &f.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        Some((it, p, rest))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    impl<'l> VisitMut for L<'l> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut i = 0;
            while i < b.stmts.len() {
                let found = match &b.stmts[i] { Stmt::Expr(e, _) => as_for(e), _ => None };
                if let Some((it, pat, body)) = found {
                    let at = b.stmts[..i].iter().rposition(|s| matches!(s, Stmt::Local(Local { pat: Pat::Ident(p), init: Some(_), .. }) if p.ident == it));
                    // only the `let` and the one step name it, and what is between the two does nothing but bind plain values
                    if let Some(at) = at {
                        let plain = b.stmts[at + 1..i].iter().all(|s| match s {
                            Stmt::Local(Local { init: Some(x), .. }) => x.diverge.is_none() && matches!(&*x.expr, Expr::Lit(_) | Expr::Path(_) | Expr::Struct(_)) || matches!(&*x.expr, Expr::Call(c) if c.args.is_empty()),
                            _ => false,
                        });
                        if plain && uses_of(b, &it) == 2 {
                            let Stmt::Local(l) = b.stmts.remove(at) else { unreachable!() };
                            let e = l.init.unwrap().expr;
                            b.stmts[i - 1] = parse_quote!(for #pat in #e { #(#body)* });
                            self.0.hit("R21 loop that steps an iterator -> for");
                            continue;
                        }
                    }
                }
                i += 1;
            }
        }
    }
    L(log).visit_block_mut(b);
}

/// a parameter that is a pattern is taken apart in the body
pub fn parameters(f: &mut ImplItemFn) {
    let mut lets: Vec<Stmt> = vec![];
    for i in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            if matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) { continue; }
            let n = format_ident!("vx_p{}", lets.len());
            let p = std::mem::replace(&mut *t.pat, parse_quote!(#n));
            lets.push(parse_quote!(let #p = #n;));
        }
    }
    lets.append(&mut f.block.stmts);
    f.block.stmts = lets;
}

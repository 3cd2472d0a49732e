//! R18: private helpers without a contract are inlined into their callers.
use crate::lower::{has_return, lift_returns};
use crate::sidecar::Sidecar;
use crate::{Func, Log};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::quote;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Inl<'a> {
    all_names: &'a BTreeMap<String, usize>,
    helpers: &'a BTreeMap<String, ImplItemFn>,
    self_ty: String,
    hits: usize,
    n: usize,
    /// the caller returns no value
    unit: bool,
    closure: bool,
    /// what the caller returns
    output: String,
    /// names that mean something in the caller
    taken: BTreeSet<String>,
}

/// Every way out of `e` other than its end is `?`, or a return of what `?` returns.
fn only_tries(e: &Expr) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            let fails = match r.expr.as_deref() { Some(Expr::Path(p)) => p.path.is_ident("None"), Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")), _ => false };
            if !fails { self.0 = false; }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(true);
    r.visit_expr(e);
    r.0
}
/// `Result<..>` and `Option<..>`, without what is inside; the error type where it is given
fn wrapper(o: &ReturnType) -> String {
    let ReturnType::Type(_, t) = o else { return String::new() };
    let Type::Path(p) = &**t else { return String::new() };
    let mut p = p.path.clone();
    if let Some(s) = p.segments.last_mut() {
        if s.ident != "Result" && s.ident != "Option" { return String::new(); }
        if let PathArguments::AngleBracketed(a) = &mut s.arguments {
            if let Some(first) = a.args.first_mut() { *first = parse_quote!(()); }
        }
    }
    quote!(#p).to_string()
}
fn simple_type(t: &Type) -> bool {
    let mut i = BTreeSet::new();
    crate::lower::idents(quote!(#t), &mut i);
    !["str", "Path", "dyn", "impl"].iter().any(|n| i.contains(*n)) && !quote!(#t).to_string().contains('[')
}

struct SubstSelf(Expr, bool);
impl VisitMut for SubstSelf {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut i = BTreeSet::new();
        crate::lower::idents(m.tokens.clone(), &mut i);
        if i.contains("self") { self.1 = false; }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn pathlike(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => pathlike(&f.base),
        Expr::Paren(p) => pathlike(&p.expr),
        _ => false,
    }
}

struct FreshNames<'m>(&'m BTreeMap<String, String>);
impl<'m> FreshNames<'m> {
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut after_dot = false;
        t.into_iter().map(|x| {
            let dot = std::mem::replace(&mut after_dot, matches!(&x, TokenTree::Punct(p) if p.as_char() == '.'));
            match x {
                TokenTree::Ident(i) if !dot => TokenTree::Ident(match self.0.get(&i.to_string()) { Some(n) => Ident::new(n, i.span()), None => i }),
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                x => x,
            }
        }).collect()
    }
}
impl<'m> VisitMut for FreshNames<'m> {
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(std::mem::take(&mut m.tokens)); }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.qself.is_none() && e.path.segments.len() == 1 {
            if let Some(n) = self.0.get(&e.path.segments[0].ident.to_string()) { e.path.segments[0].ident = Ident::new(n, e.path.segments[0].ident.span()); }
        }
    }
}

impl<'a> Inl<'a> {
    /// `tail`: the caller returns the call's value, so a `return` of the helper is one of the caller; `tried`: the call is the
    /// operand of a `?`, so one of the helper's failures is one of the caller's (if they return the same kind of value).
    fn build(&mut self, f: &ImplItemFn, recv: Option<Expr>, args: Vec<Expr>, tail: bool, tried: bool) -> Option<Expr> {
        let generic: Vec<String> = f.sig.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
        let tail = tail && (!self.unit || matches!(f.sig.output, ReturnType::Default));
        let opt = matches!(&f.sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option")));
        let whole = |b: &Block| Expr::Block(ExprBlock { attrs: vec![], label: None, block: b.clone() });
        let mut be = whole(&f.block);
        let mut typed = false;
        if has_return(&be) {
            let mut block = f.block.clone();
            lift_returns(&mut block, opt);
            let lifted = whole(&block);
            if !has_return(&lifted) { be = lifted; }
            else if tail { }
            else if tried && wrapper(&f.sig.output) == self.output && !self.output.is_empty() {
                if !only_tries(&be) {
                    let mut block = f.block.clone();
                    lift_returns(&mut block, false);
                    be = whole(&block);
                    if !only_tries(&be) { return None; }
                }
                typed = true;
            } else { return None; }
        }
        let mut params: Vec<(Pat, Type)> = vec![];
        let mut has_self = false;
        for i in &f.sig.inputs {
            match i {
                FnArg::Receiver(_) => has_self = true,
                FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
            }
        }
        if params.len() != args.len() || (has_self != recv.is_some()) { return None; }
        if let Some(r) = &recv { if !pathlike(r) { return None; } }
        // a parameter that gets a variable of the caller is that variable
        let mut names: BTreeMap<String, String> = BTreeMap::new();
        let mut kept = vec![];
        for ((p, t), a) in params.into_iter().zip(args) {
            let var = match &a { Expr::Path(q) => q.path.get_ident().map(|i| i.to_string()).filter(|n| n != "self" && n.starts_with(|c: char| c.is_lowercase())), _ => None };
            match (&p, var) {
                (Pat::Ident(i), Some(v)) if i.mutability.is_none() && i.by_ref.is_none() && simple_type(&t) => { names.insert(i.ident.to_string(), v); }
                _ => kept.push((p, t, a)),
            }
        }
        // keep the helper's own names apart from the caller's
        for n in crate::rename::names(f) {
            if names.contains_key(&n) { continue; }
            let m = if self.taken.contains(&n) { format!("{}_h{}", n, self.n) } else { n.clone() };
            self.taken.insert(m.clone());
            names.insert(n, m);
        }
        self.n += 1;
        FreshNames(&names).visit_expr_mut(&mut be);
        if !generic.is_empty() {
            // what is left of the type parameters: `T::default()`
            struct G<'g>(&'g [String], bool);
            impl<'g> VisitMut for G<'g> {
                fn visit_path_mut(&mut self, p: &mut Path) {
                    if self.0.iter().any(|g| p.segments[0].ident == g) {
                        if p.segments.len() == 2 && p.segments[1].ident == "default" { *p = parse_quote!(vx_default); } else { self.1 = false; }
                    }
                    visit_mut::visit_path_mut(self, p);
                }
            }
            let mut g = G(&generic, true);
            g.visit_expr_mut(&mut be);
            if !g.1 { return None; }
        }
        if let Some(r) = recv {
            if !matches!(&r, Expr::Path(p) if p.path.is_ident("self")) {
                let mut s = SubstSelf(r, true);
                s.visit_expr_mut(&mut be);
                if !s.1 { return None; }
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        for (mut p, t, a) in kept {
            FreshNames(&names).visit_pat_mut(&mut p);
            let mut i = BTreeSet::new();
            crate::lower::idents(quote!(#t), &mut i);
            if i.contains("impl") || generic.iter().any(|g| i.contains(g)) || matches!(&t, Type::Reference(r) if r.lifetime.is_some()) { lets.push(parse_quote!(let #p = #a;)); }
            else { lets.push(parse_quote!(let #p: #t = #a;)); }
        }
        if typed { if let ReturnType::Type(_, t) = &f.sig.output { be = parse_quote!({ let vx_value: #t = #be; vx_value }); } }
        let b = match be { Expr::Block(b) => b.block, _ => unreachable!() };
        let out: TokensOrBlock = TokensOrBlock(lets, b);
        Some(out.into_expr())
    }
}
struct TokensOrBlock(Vec<Stmt>, Block);
impl TokensOrBlock {
    fn into_expr(self) -> Expr {
        let mut b = self.1;
        let mut s = self.0;
        s.append(&mut b.stmts);
        b.stmts = s;
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let o = std::mem::replace(&mut self.closure, true);
        visit_mut::visit_expr_closure_mut(self, c);
        self.closure = o;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let mut operand = &mut *t.expr;
            while let Expr::Paren(p) = operand { operand = &mut p.expr; }
            if !self.closure && matches!(operand, Expr::Call(_) | Expr::MethodCall(_)) {
                if let Some(r) = self.attempt(operand, false, true) { self.hits += 1; *operand = r; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(r) = self.attempt(e, false, false) { self.hits += 1; *e = r; }
    }
}
impl<'a> Inl<'a> {
    fn tails(&mut self, b: &mut Block, unit: bool) {
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, semi)) if semi.is_none() || unit || matches!(e, Expr::Return(_)) => self.tail(e, unit),
            _ => {}
        }
    }
    fn tail(&mut self, e: &mut Expr, unit: bool) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tails(&mut b.block, unit),
            Expr::If(i) => { self.tails(&mut i.then_branch, unit); if let Some((_, x)) = &mut i.else_branch { self.tail(x, unit); } }
            Expr::Match(m) => for a in &mut m.arms { self.tail(&mut a.body, unit); },
            Expr::Call(_) | Expr::MethodCall(_) => if let Some(r) = self.attempt(e, true, false) { self.hits += 1; *e = r; },
            _ => {}
        }
    }
    fn attempt(&mut self, e: &Expr, tail: bool, tried: bool) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                let is_self = matches!(&recv, Expr::Path(p) if p.path.is_ident("self"));
                let key = if is_self { let k = format!("{}::{}", self.self_ty, name); if self.helpers.contains_key(&k) { Some(k) } else { None } }
                    else { let c: Vec<&String> = self.helpers.keys().filter(|k| k.split("::").nth(1) == Some(&name)).collect(); if c.len() == 1 && self.all_names.get(&name) == Some(&1) { Some(c[0].clone()) } else { None } };
                key.and_then(|k| { let f = self.helpers[&k].clone(); self.build(&f, Some(recv), m.args.iter().cloned().collect(), tail, tried) })
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = if s.len() == 1 { s[0].clone() } else if s[s.len() - 2].starts_with(|c: char| c.is_lowercase()) && s[0] != "std" && s[0] != "core" && !["mem", "cmp", "fs", "io", "ptr", "str", "iter", "env", "fmt", "slice", "path"].contains(&s[s.len() - 2].as_str()) { s[s.len() - 1].clone() } else { let t = if s[s.len() - 2] == "Self" { self.self_ty.clone() } else { s[s.len() - 2].clone() }; format!("{}::{}", t, s[s.len() - 1]) };
                    match self.helpers.get(&key).cloned() {
                        Some(f) => {
                            let has_self = f.sig.inputs.iter().any(|i| matches!(i, FnArg::Receiver(_)));
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            if has_self { None.or_else(|| { let r = if args.is_empty() { return None; } else { args.remove(0) }; let r = match r { Expr::Reference(r) => *r.expr, r => r }; self.build(&f, Some(r), args, tail, tried) }) }
                            else { self.build(&f, None, args, tail, tried) }
                        }
                        None => None,
                    }
                } else { None }
            }
            _ => None,
        }
    }
}
struct Rets<'i, 'a>(&'i mut Inl<'a>);
impl<'i, 'a> VisitMut for Rets<'i, 'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(x) = &mut r.expr { self.0.tail(x, false); }
        visit_mut::visit_expr_return_mut(self, r);
    }
}

/// Returns the keys of the functions that were inlined everywhere (and are not emitted).
pub fn run(funcs: &mut Vec<Func>, side: &Sidecar, log: &mut Log) -> BTreeSet<String> {
    let mut done = BTreeSet::new();
    let mut helpers: BTreeMap<String, ImplItemFn> = BTreeMap::new();
    for f in funcs.iter() {
        if !side.fns.contains_key(&f.key) && !f.item.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Const(_))) && f.trait_name.is_none() {
            helpers.insert(f.key.clone(), f.item.clone());
        }
    }
    if helpers.is_empty() { return done; }
    // method names: how many functions (or std methods we know of) carry each
    let mut all_names: BTreeMap<String, usize> = BTreeMap::new();
    for f in funcs.iter() { *all_names.entry(f.key.split("::").last().unwrap().to_string()).or_insert(0) += 1; }
    for n in ["next", "len", "is_empty", "clone", "push", "pop", "insert", "remove", "get", "get_mut", "last", "first", "min", "max", "contains", "iter", "take", "replace", "as_ref", "as_mut", "map", "count", "nth", "enumerate", "rev", "new", "default", "to_string", "as_str", "as_bytes", "chars", "find", "start", "end", "apply", "parse_line", "build", "into_builder", "add_from_folder", "reserve", "capacity", "set_len", "drain", "extend", "append", "truncate", "resize", "split", "trim", "lines", "position", "filter", "all", "any", "join", "exists", "write", "write_all", "flush", "borrow", "borrow_mut", "sort", "cmp", "eq", "swap", "fill", "copied", "cloned", "zip", "chain", "skip", "fold", "sum", "peek", "ok", "err", "then", "set", "parent", "extension", "file_name", "into", "from", "fmt", "remove_file", "advance", "seek", "read", "close", "entry", "keys", "values", "iter_mut", "split_at", "chunks", "windows", "concat", "repeat", "matches", "graphemes", "grapheme_indices", "bytes", "char_indices", "canonicalize", "strip_prefix", "reverse", "clear", "to_owned", "or", "and", "or_else", "and_then", "unwrap_or", "flatten", "rotate", "drop"] { *all_names.entry(n.to_string()).or_insert(0) += 1; }
    for _ in 0..4 {
        let mut any = 0;
        for f in funcs.iter_mut() {
            if helpers.contains_key(&f.key) && crate::lower::called_names(&f.item.block).is_empty() { continue; }
            let mut taken = BTreeSet::new();
            let item = &f.item;
            crate::lower::idents(quote!(#item), &mut taken);
            let mut i = Inl { all_names: &all_names, helpers: &helpers, self_ty: f.self_ty.clone().unwrap_or_default(), hits: 0, n: 0, unit: matches!(f.item.sig.output, ReturnType::Default), closure: false, output: wrapper(&f.item.sig.output), taken };
            i.n = any * 100;
            if !helpers.contains_key(&f.key) {
                let unit = i.unit;
                i.tails(&mut f.item.block, unit);
                Rets(&mut i).visit_block_mut(&mut f.item.block);
            }
            i.visit_block_mut(&mut f.item.block);
            any += i.hits;
        }
        if any == 0 { break; }
        for _ in 0..any { log.hit("R18 private helper without contract inlined"); }
        for f in funcs.iter() { if helpers.contains_key(&f.key) { helpers.insert(f.key.clone(), f.item.clone()); } }
    }
    // a helper that is no longer called anywhere is not emitted
    for k in helpers.keys() {
        let n = k.split("::").last().unwrap().to_string();
        let used = funcs.iter().any(|f| { let c = crate::lower::called_names(&f.item.block); f.key != *k && (c.contains(&format!(".{n}")) || c.contains(k) || c.contains(&format!("Self::{n}"))) });
        let private = funcs.iter().any(|f| f.key == *k && f.private);
        let restricted = funcs.iter().any(|f| f.key == *k && matches!(f.item.vis, Visibility::Restricted(_)));
        // (a generic one, with bounds the verifier does not know, is not emitted either: where it is not inlined, its caller is out of reach)
        let generic = helpers[k].sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_)));
        if (!used || generic) && (private || restricted) { done.insert(k.clone()); }
    }
    done
}

//! Printing: one Verus module per source file, with contracts, loop invariants and proof text
//! spliced in at the marked places, and a map from output lines to functions and clauses.
use crate::lower::Lowered;
use crate::sidecar::{FnSpec, Sidecar};
use crate::{jlist, js, Log, TypeItem, FILES};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub start: usize,
    pub end: usize,
    pub status: String, // verified | external | opaque | unknown
    pub loops: usize,
    pub loop_kinds: Vec<String>,
    pub calls: Vec<String>,
    pub missing: Vec<String>,
    pub src_line: usize,
    pub body_hash: u64,
    pub loop_hash: u64,
    pub returns: usize,
}
impl FnInfo {
    pub fn json(&self) -> String {
        format!(
            "{{\"key\": {}, \"module\": {}, \"start\": {}, \"end\": {}, \"status\": {}, \"loops\": {}, \"loop_kinds\": {}, \"calls\": {}, \"missing\": {}, \"src_line\": {}, \"body_hash\": \"{:016x}\", \"loop_hash\": \"{:016x}\", \"returns\": {}}}",
            js(&self.key), js(&self.module), self.start, self.end, js(&self.status), self.loops, jlist(self.loop_kinds.iter()), jlist(self.calls.iter()), jlist(self.missing.iter()), self.src_line, self.body_hash, self.loop_hash, self.returns
        )
    }
}
pub struct Output {
    pub text: String,
    pub functions: Vec<FnInfo>,
    pub labels: Vec<(usize, String, String, String)>,
}

struct P<'a> {
    out: String,
    line: usize,
    labels: Vec<(usize, String, String, String)>,
    raws: &'a [(String, String)],
    loops: &'a BTreeMap<usize, String>,
    side: &'a Sidecar,
    cur: String,
}

impl<'a> P<'a> {
    fn push(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }
    fn spec_lines(&mut self, kind: &str, text: &str) {
        for l in text.lines() {
            if l.trim().is_empty() { continue; }
            self.push("\n");
            let (ln, cur) = (self.line, self.cur.clone());
            self.labels.push((ln, cur, kind.to_string(), l.trim().to_string()));
            self.push(l);
        }
        self.push("\n");
    }
    fn toks(&mut self, t: TokenStream) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if *id == "__vxp" && i + 2 < v.len() => {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let n: usize = g.stream().to_string().parse().unwrap();
                        let (a, t) = self.raws[n].clone();
                        self.spec_lines(&format!("proof at {a}"), &t);
                        i += 3;
                        if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' { i += 1; } } }
                        continue;
                    }
                }
                TokenTree::Ident(id) if id.to_string().starts_with("__vxinit_") => {
                    let n = id.to_string()["__vxinit_".len()..].to_string();
                    let t = self.side.inits[&n].clone();
                    self.push(t.trim());
                    i += 3; // name : ()
                    continue;
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if g.delimiter() == Delimiter::Brace {
                        let mut body = g.stream();
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.get(0), inner.get(2)) {
                            if *id == "__vxl" {
                                let k: usize = n.stream().to_string().parse().unwrap();
                                if let Some(t) = self.loops.get(&k).cloned() { self.spec_lines(&format!("loop {k}"), &t); }
                                body = inner.into_iter().skip(4).collect();
                            }
                        }
                        self.push("{\n");
                        self.toks(body);
                        self.push("\n}");
                        // newline unless followed by something that continues the expression
                        self.push(" ");
                    } else {
                        let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                        self.push(a);
                        self.toks(g.stream());
                        self.push(b);
                        self.push(" ");
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.push(&c.to_string());
                    if c == ';' { self.push("\n"); }
                    else if p.spacing() == Spacing::Alone { self.push(" "); }
                }
                t => { let s = t.to_string(); self.push(&s); self.push(" "); }
            }
            i += 1;
        }
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

fn generics_str(g: &Generics) -> (String, String) {
    let (a, _, w) = g.split_for_impl();
    (a.to_token_stream().to_string(), w.to_token_stream().to_string())
}

pub fn emit(
    side: &Sidecar, types: Vec<TypeItem>, consts: Vec<(String, Item)>, funcs: Vec<Lowered>, op_types: &[String],
    opaque: &BTreeSet<String>, noloops: &BTreeSet<String>, must_fail: bool, log: &mut Log, problems: &mut Vec<String>,
) -> Output {
    let empty_loops = BTreeMap::new();
    let no_raws: Vec<(String, String)> = vec![];
    let mut out = String::new();
    let mut line = 1usize;
    let mut labels = vec![];
    let mut infos: Vec<FnInfo> = vec![];
    let add = |out: &mut String, line: &mut usize, s: &str| { *line += s.matches('\n').count(); out.push_str(s); };

    add(&mut out, &mut line, "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_must_use, unused_assignments, unused_unsafe, unreachable_code, unused_labels, path_statements)]\n");
    add(&mut out, &mut line, "#![allow(mismatched_lifetime_syntaxes)]\n");
    add(&mut out, &mut line, &side.prelude);
    for (_, m) in FILES { add(&mut out, &mut line, &format!("pub use {m}::*;\n")); }

    for (_, m) in FILES {
        add(&mut out, &mut line, &format!("pub mod {m} {{\nuse super::*;\nuse std::mem;\nuse std::cmp;\nuse std::cmp::Ordering;\nuse vstd::prelude::*;\nverus! {{\nbroadcast use group_vx;\n"));
        for (cm, c) in consts.iter().filter(|(cm, _)| cm == m) {
            let _ = cm;
            let mut c = c.clone();
            syn::visit_mut::VisitMut::visit_item_mut(&mut crate::lower::Types { log, module: m.to_string() }, &mut c);
            match &mut c { Item::Const(x) => { x.vis = parse_quote!(pub); x.attrs.clear(); } Item::Static(x) => { x.vis = parse_quote!(pub); x.attrs.clear(); } Item::Type(x) => { x.vis = parse_quote!(pub); x.attrs.clear(); } _ => {} }
            let s = c.to_token_stream().to_string();
            add(&mut out, &mut line, &s);
            add(&mut out, &mut line, "\n");
        }
        for t in types.iter().filter(|t| t.module == *m) {
            let mut item = t.item.clone();
            let mut ty = crate::lower::Types { log, module: m.to_string() };
            use syn::visit_mut::VisitMut;
            ty.visit_item_mut(&mut item);
            log.hit("R2 visibility widened, attributes dropped (types)");
            let mut txt = String::new();
            let mut d: Vec<&str> = vec![];
            if t.derives.iter().any(|x| x == "Copy") { d.push("Clone"); d.push("Copy"); if t.derives.iter().any(|x| x == "PartialEq") { d.push("PartialEq"); d.push("Eq"); d.push("Structural"); } }
            if !d.is_empty() { txt.push_str(&format!("#[derive({})]\n", d.join(", "))); }
            if let Some(a) = side.type_attrs.get(&t.name) { txt.push_str(a); txt.push('\n'); }
            match &mut item {
                Item::Struct(s) => {
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    let g = s.generics.to_token_stream().to_string();
                    txt.push_str(&format!("pub struct {}{} {{\n", s.ident, g));
                    match &s.fields {
                        Fields::Named(n) => for f in &n.named { txt.push_str(&format!("pub {}: {},\n", f.ident.as_ref().unwrap(), f.ty.to_token_stream())); },
                        _ => problems.push(format!("struct {} is not a plain struct", s.ident)),
                    }
                    if let Some(f) = side.fields.get(&t.name) { txt.push_str(f); }
                    txt.push_str("}\n");
                }
                Item::Enum(e) => {
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in &mut e.variants { v.attrs.clear(); }
                    txt.push_str(&e.to_token_stream().to_string());
                    txt.push('\n');
                }
                _ => {}
            }
            add(&mut out, &mut line, &txt);
        }
        if *m == "operation" {
            let mut txt = String::from("pub enum DynOperation {\n");
            for t in op_types { txt.push_str(&format!("{t}({t}),\n")); }
            txt.push_str("}\n");
            for t in op_types {
                txt.push_str(&format!("impl {t} {{ pub fn vx_dyn(self) -> (r: DynOperation) ensures r == DynOperation::{t}(self) {{ DynOperation::{t}(self) }} }}\n"));
            }
            add(&mut out, &mut line, &txt);
            // dynamic dispatch: one match per trait method, with the contract every operation shares
            for (meth, sig, call) in [
                ("run", "&mut self, buffer: &mut Buffer", "op.run(buffer)"),
                ("reverse", "&mut self, buffer: &mut Buffer", "op.reverse(buffer)"),
                ("clone_operation", "&self", "op.clone_operation()"),
            ] {
                let key = format!("DynOperation::{meth}");
                let d = FnSpec::default();
                let sp = side.fns.get(&key).unwrap_or(&d);
                let start = line;
                let ret = if meth == "clone_operation" { " -> (r: DynOperation)" } else { "" };
                let mut p = P { out: String::new(), line, labels: vec![], raws: &no_raws, loops: &empty_loops, side, cur: key.clone() };
                p.push(&format!("impl DynOperation {{\n{}pub fn {meth}({sig}){ret}", sp.attr));
                p.spec_lines("contract", &sp.spec);
                p.push("{\n");
                for (a, t) in &sp.anchors { if a == "entry" { p.spec_lines("proof at entry", t); } }
                p.push("match self {\n");
                for t in op_types { p.push(&format!("DynOperation::{t}(op) => {call},\n")); }
                p.push("}\n}\n}\n");
                line = p.line;
                labels.append(&mut p.labels);
                out.push_str(&p.out);
                infos.push(FnInfo { key, module: m.to_string(), start, end: line, status: "verified".into(), loops: 0, loop_kinds: vec![], calls: op_types.iter().map(|t| format!("{t}::{meth}")).collect(), missing: vec![], src_line: 0, body_hash: 0, loop_hash: 0, returns: 0 });
            }
        }
        if let Some(r) = side.module_raw.get(*m) {
            let start = line;
            for (i, l) in r.lines().enumerate() { if !l.trim().is_empty() { labels.push((start + i, format!("lemmas of {m}"), "lemma".into(), l.trim().to_string())); } }
            add(&mut out, &mut line, r);
            infos.push(FnInfo { key: format!("lemmas of {m}"), module: m.to_string(), start, end: line, status: "verified".into(), loops: 0, loop_kinds: vec![], calls: vec![], missing: vec![], src_line: 0, body_hash: 0, loop_hash: 0, returns: 0 });
        }
        for f in funcs.iter().filter(|f| f.module == *m) {
            let d = FnSpec::default();
            let sp = side.fns.get(&f.key).unwrap_or(&d);
            if sp.skip { log.hit("functions not extracted (marked skip)"); continue; }
            log.hit("R2 visibility widened, attributes and docs dropped (functions)");
            let opq = opaque.contains(&f.key);
            let external = sp.external || opq || f.unknown;
            let bare = noloops.contains(&f.key);
            let status = if sp.external { "external" } else if opq { "opaque" } else if f.unknown { "unknown" } else { "verified" };
            let start = line;
            let mut p = P { out: String::new(), line, labels: vec![], raws: &f.raws, loops: if bare { &empty_loops } else { &sp.loops }, side, cur: f.key.clone() };
            let keep_trait = matches!(f.trait_name.as_deref(), Some("PartialOrd"));
            if let Some(t) = &f.self_ty_full {
                let (g, w) = generics_str(&f.impl_generics);
                let tr = if keep_trait { format!("{} for ", f.trait_name.as_ref().unwrap()) } else { String::new() };
                p.push(&format!("impl {g} {tr}{} {w} {{\n", t.to_token_stream()));
                if f.trait_name.is_some() && !keep_trait { log.hit("R4 trait impl -> inherent impl"); }
            }
            p.push(&sp.attr);
            // the loops of a function with an inlined helper may use what the helper's parameters stand for
            let (b, mut names) = (&f.block, BTreeSet::new());
            crate::lower::idents(quote!(#b), &mut names);
            if f.loops > 0 && names.iter().any(|n| n.rsplit_once("_h").map_or(false, |(_, d)| !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()))) {
                p.push("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
            }
            if !external && (bare || f.loops > sp.loops.len()) { p.push("#[verifier::exec_allows_no_decreases_clause]\n"); }
            if external { p.push("#[verifier::external_body]\n"); }
            let sig = &f.sig;
            let (g, w) = generics_str(&sig.generics);
            let vis = if keep_trait { "" } else { "pub " };
            p.push(&format!("{vis}fn {}{}(", sig.ident, g));
            let mut first = true;
            for i in &sig.inputs {
                if !first { p.push(", "); }
                first = false;
                let s = i.to_token_stream().to_string();
                p.push(&s);
            }
            if !sp.ghost_params.is_empty() { if !first { p.push(", "); } first = false; p.push(&sp.ghost_params); }
            if f.io { if !first { p.push(", "); } p.push("Tracked(vx_fs): Tracked<&mut FsState>"); }
            p.push(")");
            match &sig.output {
                ReturnType::Default => {}
                ReturnType::Type(_, t) => {
                    let mut ts = t.to_token_stream().to_string();
                    if f.trait_name.is_some() && !keep_trait {
                        // associated types of the dropped trait impls
                        if ts.contains("Self :: Output") { ts = ts.replace("Self :: Output", &f.self_ty.clone().unwrap()); }
                        if ts.contains("Self :: Item") { ts = ts.replace("Self :: Item", sp.args.get("Item").map(|s| s.as_str()).unwrap_or("()")); }
                        if ts.contains("Self :: Target") { ts = ts.replace("Self :: Target", "Position"); }
                    }
                    p.push(&format!(" -> ({}: {})", sp.ret.clone().unwrap_or("vx_result".into()), ts));
                }
            }
            p.push(&format!(" {w}"));
            p.spec_lines("contract", &sp.spec);
            let bt = f.block.to_token_stream();
            let hash = fnv(&bt.to_string());
            if external {
                p.push("{ unimplemented!() }\n");
            } else {
                if must_fail {
                    // vacuity probe: the assertion must be refuted, or the precondition is contradictory
                    let stmts = &f.block.stmts;
                    let _ = stmts;
                    p.push("{ proof { assert(false); }\n");
                    p.toks(bt);
                    p.push("}\n");
                } else {
                    p.toks(bt);
                    p.push("\n");
                }
            }
            if f.self_ty_full.is_some() { p.push("}\n"); }
            line = p.line;
            labels.append(&mut p.labels);
            out.push_str(&p.out);
            infos.push(FnInfo {
                key: f.key.clone(), module: m.to_string(), start, end: line, status: status.into(), loops: f.loops, loop_kinds: f.loop_kinds.clone(),
                calls: f.calls.iter().cloned().collect(), missing: f.missing_anchors.clone(), src_line: f.src_line, body_hash: hash, loop_hash: fnv(&f.loop_text), returns: f.returns,
            });
        }
        if side.fns.values().any(|_| false) { let _ = quote!(); }
        add(&mut out, &mut line, "} // verus!\n}\n");
    }
    // client theorems: functions that are verified against the contracts alone
    for (m, r) in side.module_raw.iter().filter(|(m, _)| !FILES.iter().any(|(_, x)| x == m)) {
        let key = format!("lemmas of {m}");
        if opaque.contains(&key) { continue; }
        add(&mut out, &mut line, &format!("pub mod {m} {{\nuse super::*;\nuse vstd::prelude::*;\nverus! {{\nbroadcast use group_vx;\n"));
        let start = line;
        for (i, l) in r.lines().enumerate() { if !l.trim().is_empty() { labels.push((start + i, key.clone(), "lemma".into(), l.trim().to_string())); } }
        add(&mut out, &mut line, r);
        infos.push(FnInfo { key, module: m.to_string(), start, end: line, status: "verified".into(), loops: 0, loop_kinds: vec![], calls: vec![], missing: vec![], src_line: 0, body_hash: 0, loop_hash: 0, returns: 0 });
        add(&mut out, &mut line, "} // verus!\n}\n");
    }
    // contracts whose function does not exist any more
    let present: BTreeSet<&String> = funcs.iter().map(|f| &f.key).collect();
    for k in side.fns.keys() {
        if !present.contains(k) && !k.starts_with("DynOperation::") { problems.push(format!("lost anchor: function {k} has a contract but is not in the sources")); }
    }
    add(&mut out, &mut line, "fn main() {}\n");
    Output { text: out, functions: infos, labels }
}

//! Mechanical extractor: reads the Rust sources under <repo>/src, applies a fixed list of
//! syntactic rewrite rules (documented in /verif/DESIGN.md, each use logged), injects the
//! contracts of /verif/contracts/*.vspec and prints one Verus crate plus a map from output
//! lines to functions and contract clauses.
mod emit;
mod guards;
mod inline;
mod lower;
mod normal;
mod rename;
mod sidecar;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;
use syn::*;

pub struct Log(pub BTreeMap<String, usize>);
impl Log {
    pub fn hit(&mut self, rule: &str) {
        *self.0.entry(rule.to_string()).or_insert(0) += 1;
    }
}

/// The source files that are extracted, and the Verus module each one becomes.
pub const FILES: &[(&str, &str)] = &[
    ("buffer/distance.rs", "distance"),
    ("buffer/position.rs", "position"),
    ("buffer/range.rs", "range"),
    ("buffer/line_range.rs", "line_range"),
    ("buffer/gap_buffer.rs", "gap_buffer"),
    ("buffer/cursor.rs", "cursor"),
    ("util/line_iterator.rs", "line_iterator"),
    ("buffer/token/mod.rs", "token"),
    ("buffer/token/token_iterator.rs", "token_iterator"),
    ("buffer/token/token_set.rs", "token_set"),
    ("buffer/operation/mod.rs", "operation"),
    ("buffer/operation/history.rs", "history"),
    ("buffer/operation/group.rs", "group"),
    ("buffer/operation/insert.rs", "insert"),
    ("buffer/operation/delete.rs", "delete"),
    ("buffer/operation/replace.rs", "replace"),
    ("buffer/mod.rs", "buffer"),
    ("workspace.rs", "workspace"),
];

/// One function taken from the sources, before contracts are attached.
pub struct Func {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub generics: Generics, // impl generics
    pub self_ty_full: Option<Type>,
    pub item: ImplItemFn,
    pub trait_name: Option<String>,
    pub private: bool,
    pub src_line: usize,
}

pub struct TypeItem {
    pub module: String,
    pub name: String,
    pub item: Item,
    pub derives: Vec<String>,
}

/// the Rust files below `dir`
fn source_files(dir: &std::path::Path, at: &str) -> Vec<String> {
    let mut r = vec![];
    let Ok(d) = fs::read_dir(dir) else { return r };
    for e in d.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if e.path().is_dir() { r.extend(source_files(&e.path(), &format!("{at}{n}/"))); }
        else if n.ends_with(".rs") { r.push(format!("{at}{n}")); }
    }
    r.sort();
    r
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.get_ident() {
                    out.push(i.to_string());
                }
                Ok(())
            });
        }
    }
    out
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("cfg") && s.contains("test")
    })
}

/// the literals of the sources (tests apart): the bounded search uses them as a dictionary
#[derive(Default)]
struct Literals(BTreeSet<u128>, BTreeSet<String>, BTreeMap<String, u128>);
impl<'a> syn::visit::Visit<'a> for Literals {
    fn visit_item_mod(&mut self, m: &'a ItemMod) { if !is_test(&m.attrs) { syn::visit::visit_item_mod(self, m); } }
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_lit(&mut self, l: &'a Lit) {
        match l {
            Lit::Int(i) => { if let Ok(n) = i.base10_parse::<u128>() { self.0.insert(n); } }
            Lit::Byte(b) => { self.0.insert(b.value() as u128); if b.value() < 128 { self.1.insert((b.value() as char).to_string()); } }
            Lit::Str(s) => { self.1.insert(s.value()); }
            Lit::ByteStr(s) => { if let Ok(s) = String::from_utf8(s.value()) { self.1.insert(s); } }
            Lit::Char(c) => { self.1.insert(c.value().to_string()); }
            _ => {}
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) { self.tokens(m.tokens.clone()); }
    // numbers that are written as expressions
    fn visit_expr(&mut self, e: &'a Expr) {
        if let Some(n) = self.value(e) { self.0.insert(n); }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item_const(&mut self, c: &'a ItemConst) { self.named(&c.ident, &c.expr); syn::visit::visit_item_const(self, c); }
    fn visit_item_static(&mut self, c: &'a ItemStatic) { self.named(&c.ident, &c.expr); syn::visit::visit_item_static(self, c); }
    fn visit_impl_item_const(&mut self, c: &'a ImplItemConst) { self.named(&c.ident, &c.expr); syn::visit::visit_impl_item_const(self, c); }
    fn visit_local(&mut self, l: &'a Local) {
        let mut p = &l.pat;
        if let Pat::Type(t) = p { p = &t.pat; }
        if let (Pat::Ident(i), Some(init)) = (p, &l.init) { self.named(&i.ident, &init.expr); }
        syn::visit::visit_local(self, l);
    }
}
impl Literals {
    fn named(&mut self, name: &Ident, e: &Expr) { if let Some(n) = self.value(e) { self.2.insert(name.to_string(), n); } }
    fn value(&self, e: &Expr) -> Option<u128> {
        match e {
            Expr::Lit(l) => match &l.lit { Lit::Int(i) => i.base10_parse().ok(), Lit::Byte(b) => Some(b.value() as u128), _ => None },
            Expr::Paren(x) => self.value(&x.expr),
            Expr::Group(x) => self.value(&x.expr),
            Expr::Cast(x) => self.value(&x.expr),
            Expr::Path(p) => {
                let t: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                match t.join("::").as_str() {
                    "u8::MAX" => Some(255), "i8::MAX" => Some(127), "u16::MAX" => Some(65535), "i16::MAX" => Some(32767), "u32::MAX" => Some(u32::MAX as u128), "usize::BITS" | "u64::BITS" => Some(64), "u32::BITS" => Some(32),
                    _ => self.2.get(t.last()?).copied(),
                }
            }
            Expr::MethodCall(m) => {
                let a = self.value(&m.receiver)?;
                let b = match m.args.first() { Some(x) => Some(self.value(x)?), None => None };
                match (m.method.to_string().as_str(), b) {
                    ("pow", Some(b)) => a.checked_pow(u32::try_from(b).ok()?), ("min", Some(b)) => Some(a.min(b)), ("max", Some(b)) => Some(a.max(b)), ("next_power_of_two", None) => a.checked_next_power_of_two(),
                    ("wrapping_mul" | "saturating_mul", Some(b)) => a.checked_mul(b), ("wrapping_add" | "saturating_add", Some(b)) => a.checked_add(b), ("wrapping_sub" | "saturating_sub", Some(b)) => Some(a.saturating_sub(b)),
                    _ => None,
                }
            }
            Expr::Binary(b) => {
                let (x, y) = (self.value(&b.left)?, self.value(&b.right)?);
                match b.op {
                    BinOp::Add(_) => x.checked_add(y), BinOp::Sub(_) => x.checked_sub(y), BinOp::Mul(_) => x.checked_mul(y), BinOp::Div(_) => x.checked_div(y), BinOp::Rem(_) => x.checked_rem(y),
                    BinOp::Shl(_) => x.checked_mul(1u128.checked_shl(u32::try_from(y).ok()?)?), BinOp::Shr(_) => x.checked_shr(u32::try_from(y).ok()?),
                    BinOp::BitOr(_) => Some(x | y), BinOp::BitAnd(_) => Some(x & y), BinOp::BitXor(_) => Some(x ^ y),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        for t in t {
            match t {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Literal(l) => syn::visit::Visit::visit_lit(self, &Lit::new(l)),
                _ => {}
            }
        }
    }
}

fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = PathBuf::from("/repo");
    let mut contracts = PathBuf::from("/verif/contracts");
    let mut out = PathBuf::from("/tmp/vx");
    let mut opaque: BTreeSet<String> = BTreeSet::new();
    let (mut bare, mut noloops): (BTreeSet<String>, BTreeSet<String>) = Default::default();
    let mut record = false;
    let mut must_fail: bool = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { i += 1; repo = PathBuf::from(&args[i]); }
            "--contracts" => { i += 1; contracts = PathBuf::from(&args[i]); }
            "--out" => { i += 1; out = PathBuf::from(&args[i]); }
            "--opaque" => { i += 1; opaque.extend(args[i].split(',').filter(|s| !s.is_empty()).map(String::from)); }
            "--bare" => { i += 1; bare.extend(args[i].split(',').filter(|s| !s.is_empty()).map(String::from)); }
            "--no-loop-specs" => { i += 1; noloops.extend(args[i].split(',').filter(|s| !s.is_empty()).map(String::from)); }
            "--record" => record = true,
            "--must-fail" => must_fail = true,
            a => { eprintln!("unknown argument {a}"); std::process::exit(2); }
        }
        i += 1;
    }
    fs::create_dir_all(&out).unwrap();

    let mut side = sidecar::load(&contracts);
    // proof hints that do not fit a changed function are left out (they are no obligations)
    for k in &bare { if let Some(f) = side.fns.get_mut(k) { f.anchors.clear(); } }
    let side = side;
    let mut log = Log(BTreeMap::new());
    let mut funcs: Vec<Func> = vec![];
    let mut types: Vec<TypeItem> = vec![];
    let mut consts: Vec<(String, Item)> = vec![];
    let mut op_types: Vec<String> = vec![];
    let mut problems: Vec<String> = vec![];
    let mut total_fns = 0usize;
    let mut literals = Literals::default();

    // files the sources did not have: their functions are helpers
    let mut files: Vec<(String, &str)> = FILES.iter().map(|(f, m)| (f.to_string(), *m)).collect();
    for f in source_files(&repo.join("src"), "") {
        if !FILES.iter().any(|(g, _)| *g == f) && !["lib.rs", "errors.rs", "util/mod.rs"].contains(&f.as_str()) { files.push((f, "buffer")); }
    }
    let mut parsed_files: Vec<(String, &str, Vec<Item>)> = vec![];
    let mut texts = BTreeMap::new();
    for (file, module) in &files {
        let path = repo.join("src").join(file);
        let text = match fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => { problems.push(format!("missing source file {file}: {e}")); continue; }
        };
        let parsed = match parse_file(&text) {
            Ok(p) => p,
            Err(e) => { problems.push(format!("cannot parse {file}: {e}")); continue; }
        };
        // twice: what a name stands for may come after its use
        for _ in 0..2 { syn::visit::Visit::visit_file(&mut literals, &parsed); }
        let mut items = normal::flatten(parsed.items, &mut log);
        normal::imports(&mut items, &mut log);
        normal::texts(&items, &mut texts);
        parsed_files.push((file.clone(), module, items));
    }
    for (file, module, mut items) in parsed_files {
        if !texts.is_empty() {
            for item in items.iter_mut() {
                let me = match item { Item::Impl(im) => type_name(&im.self_ty).unwrap_or_default(), _ => String::new() };
                let mut t = normal::Texts { texts: &texts, me, hits: 0 };
                syn::visit_mut::VisitMut::visit_item_mut(&mut t, item);
                for _ in 0..t.hits { log.hit("R21 constant replaced by its literal"); }
            }
        }
        let mut inner = vec![];
        for item in items.iter_mut() {
            match item {
                Item::Fn(f) => normal::nested(&mut f.block, &mut inner),
                Item::Impl(im) => for it in &mut im.items { if let ImplItem::Fn(f) = it { normal::nested(&mut f.block, &mut inner); } },
                _ => {}
            }
        }
        for f in inner { log.hit("R21 function within a function"); items.push(Item::Fn(f)); }
        for item in items {
            match item {
                Item::Const(c) if texts.contains_key(&c.ident.to_string()) => {}
                Item::Static(c) if texts.contains_key(&c.ident.to_string()) => {}
                Item::Use(_) | Item::ExternCrate(_) => log.hit("R1 drop use/extern crate (names resolved by the prelude)"),
                Item::Mod(m) => {
                    if is_test(&m.attrs) { log.hit("R1 drop #[cfg(test)] module"); }
                    else if m.content.is_some() { problems.push(format!("{file}: inline module {} is not extracted", m.ident)); }
                }
                Item::Struct(s) => {
                    let d = derives(&s.attrs);
                    // R19: the functions that derive(Clone)/derive(Default) generate are written out
                    if let Fields::Named(n) = &s.fields {
                        let id = s.ident.clone();
                        let fields: Vec<&Ident> = n.named.iter().map(|f| f.ident.as_ref().unwrap()).collect();
                        let mut gen: Vec<ImplItemFn> = vec![];
                        if d.iter().any(|x| x == "Clone") && !d.iter().any(|x| x == "Copy") && s.generics.params.is_empty() && id != "Cursor" {
                            gen.push(parse_quote!(pub fn clone(&self) -> #id { #id { #(#fields: self.#fields.clone()),* } }));
                        }
                        if d.iter().any(|x| x == "Default") && s.generics.params.is_empty() {
                            let tys: Vec<&Type> = n.named.iter().map(|f| &f.ty).collect();
                            let vals: Vec<Expr> = tys.iter().map(|t| { let s = quote::quote!(#t).to_string(); if s == "usize" { parse_quote!(0) } else if s == "bool" { parse_quote!(false) } else { parse_quote!(<#t>::default()) } }).collect();
                            gen.push(parse_quote!(pub fn default() -> #id { #id { #(#fields: #vals),* } }));
                        }
                        for item in gen {
                            log.hit("R19 derive(Clone)/derive(Default) expanded");
                            funcs.push(Func { key: format!("{}::{}", id, item.sig.ident), module: module.to_string(), self_ty: Some(id.to_string()), generics: Generics::default(),
                                self_ty_full: Some(parse_quote!(#id)), item, trait_name: Some("derive".into()), private: false, src_line: id.span().start().line });
                        }
                    }
                    types.push(TypeItem { module: module.to_string(), name: s.ident.to_string(), item: Item::Struct(s), derives: d });
                }
                Item::Enum(e) => {
                    let d = derives(&e.attrs);
                    types.push(TypeItem { module: module.to_string(), name: e.ident.to_string(), item: Item::Enum(e), derives: d });
                }
                Item::Const(_) | Item::Static(_) | Item::Type(_) => consts.push((module.to_string(), item)),
                Item::Trait(t) => {
                    if t.ident == "Operation" { log.hit("R4 trait Operation -> generated enum DynOperation"); }
                    else { problems.push(format!("{file}: trait {} is not extracted", t.ident)); }
                }
                Item::Fn(f) => {
                    if is_test(&f.attrs) { continue; }
                    total_fns += 1;
                    let private = matches!(f.vis, Visibility::Inherited);
                    let src_line = f.sig.ident.span().start().line;
                    let key = f.sig.ident.to_string();
                    funcs.push(Func {
                        key, module: module.to_string(), self_ty: None, generics: Generics::default(), self_ty_full: None,
                        item: ImplItemFn { attrs: vec![], vis: f.vis, defaultness: None, sig: f.sig, block: *f.block },
                        trait_name: None, private, src_line,
                    });
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) { continue; }
                    // an extension of a type of another crate: methods of that name are unknown
                    if matches!(type_name(&im.self_ty).as_deref(), Some("str" | "char" | "String" | "Vec" | "Option" | "Result" | "Path" | "PathBuf" | "usize" | "u8" | "bool" | "Rc" | "RefCell")) || type_name(&im.self_ty).is_none() {
                        problems.push(format!("{file}: methods added to a type of another crate are not extracted"));
                        continue;
                    }
                    let tn = type_name(&im.self_ty).unwrap_or_default();
                    let tr = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
                    if tr.as_deref() == Some("Operation") { op_types.push(tn.clone()); }
                    for it in im.items {
                        match it {
                            ImplItem::Fn(f) => {
                                total_fns += 1;
                                let key = format!("{}::{}", tn, f.sig.ident);
                                let private = matches!(f.vis, Visibility::Inherited) && tr.is_none();
                                let src_line = f.sig.ident.span().start().line;
                                funcs.push(Func {
                                    key, module: module.to_string(), self_ty: Some(tn.clone()), generics: im.generics.clone(),
                                    self_ty_full: Some((*im.self_ty).clone()), item: f, trait_name: tr.clone(), private, src_line,
                                });
                            }
                            ImplItem::Type(_) => {}
                            ImplItem::Const(c) if texts.contains_key(&format!("{tn}::{}", c.ident)) => {}
                            ImplItem::Const(c) => problems.push(format!("{file}: associated const {} is not extracted", c.ident)),
                            _ => {}
                        }
                    }
                }
                Item::Macro(_) => log.hit("R1 drop item macro"),
                _ => problems.push(format!("{file}: an item of an unsupported kind is not extracted")),
            }
        }
    }

    for f in &mut funcs {
        normal::parameters(&mut f.item);
        normal::closures(&mut f.item.block, &mut log);
        normal::loops(&mut f.item.block, &mut log);
    }
    let guards = guards::conflicts(&funcs);
    let baseline = rename::load(&contracts.join("binders.txt"));
    if record {
        rename::record(&contracts.join("binders.txt"), &funcs);
    }

    // R16: alpha-rename locals back to the names the contracts mention, when only names changed.
    for f in &mut funcs {
        if let Some(b) = baseline.get(&f.key) {
            if rename::apply(f, b) { log.hit("R16 alpha-rename locals to the names contracts use"); }
        }
    }

    // R18: inline private helpers that have no contract of their own.
    let inlined = inline::run(&mut funcs, &side, &mut log);

    let mut lowered = lower::Lower::new(&side, &op_types);
    let mut lowered_funcs = vec![];
    let io = lower::io_functions(&funcs);
    for f in funcs {
        if inlined.contains(&f.key) { continue; }
        lowered_funcs.push(lowered.function(f, &io, &mut log));
    }
    let result = emit::emit(&side, types, consts, lowered_funcs, &op_types, &opaque, &noloops, must_fail, &mut log, &mut problems);

    fs::write(out.join("scribe.rs"), &result.text).unwrap();
    let mut j = String::from("{\n");
    j.push_str(&format!("\"source_functions\": {total_fns},\n"));
    j.push_str(&format!("\"inlined\": {},\n", jlist(inlined.iter())));
    j.push_str(&format!("\"problems\": {},\n", jlist(problems.iter())));
    j.push_str(&format!("\"guards\": {},\n", jlist(guards.iter())));
    j.push_str("\"rules\": {");
    j.push_str(&log.0.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n\"functions\": [\n");
    j.push_str(&result.functions.iter().map(|f| f.json()).collect::<Vec<_>>().join(",\n"));
    j.push_str("\n],\n\"labels\": [\n");
    j.push_str(&result.labels.iter().map(|(l, f, k, t)| format!("[{}, {}, {}, {}]", l, js(f), js(k), js(t))).collect::<Vec<_>>().join(",\n"));
    j.push_str("\n],\n");
    j.push_str(&format!("\"literals\": {{\"ints\": [{}], \"strs\": {}}}\n", literals.0.iter().filter(|n| **n < 1 << 48).map(|n| n.to_string()).collect::<Vec<_>>().join(", "), jlist(literals.1.iter())));
    j.push_str("}\n");
    fs::write(out.join("map.json"), j).unwrap();
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jlist<'a, I: Iterator<Item = &'a String>>(i: I) -> String {
    format!("[{}]", i.map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

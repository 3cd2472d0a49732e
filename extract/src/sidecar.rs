//! Parser for the contract files (contracts/*.vspec).
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub attr: String,
    pub ghost_params: String,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub anchors: Vec<(String, String)>,
    /// source dialect of each loop as recorded: "while", "for", ... (informational)
    pub external: bool,
    pub skip: bool,
    pub generic_params: String,
    pub rename: Option<String>,
    pub args: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct Sidecar {
    pub prelude: String,
    pub fns: BTreeMap<String, FnSpec>,
    pub module_raw: BTreeMap<String, String>,
    /// extra (ghost) fields of a type
    pub fields: BTreeMap<String, String>,
    /// values of the ghost fields in struct literals
    pub inits: BTreeMap<String, String>,
    pub type_attrs: BTreeMap<String, String>,
    /// call name -> extra ghost argument text, appended to calls
    pub call_args: BTreeMap<String, String>,
}

pub fn load(dir: &Path) -> Sidecar {
    let mut s = Sidecar::default();
    let mut files: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let text = fs::read_to_string(&f).unwrap_or_default();
        if name.starts_with("prelude") && name.ends_with(".rs") {
            s.prelude.push_str(&text);
        } else if name.ends_with(".vspec") {
            parse(&text, name.trim_end_matches(".vspec"), &mut s);
        }
    }
    s
}

enum Sect { None, Raw(String), Spec, Loop(usize), At(String), Field(String), Init(String) }

fn parse(text: &str, default_module: &str, s: &mut Sidecar) {
    let mut cur: Option<String> = None;
    let mut sect = Sect::None;
    let mut module = default_module.to_string();
    for line in text.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            let d = d.trim();
            let (w, rest) = match d.find(char::is_whitespace) { Some(i) => (&d[..i], d[i..].trim()), None => (d, "") };
            match w {
                "module" => { module = rest.to_string(); sect = Sect::None; }
                "raw" => { sect = Sect::Raw(module.clone()); cur = None; }
                "struct" => { sect = Sect::Field(rest.to_string()); }
                "init" => { sect = Sect::Init(rest.to_string()); }
                "typeattr" => { let (n, a) = rest.split_once(' ').unwrap(); s.type_attrs.entry(n.to_string()).or_default().push_str(a); }
                "fn" => {
                    let mut it = rest.split_whitespace();
                    let k = it.next().unwrap().to_string();
                    let e = s.fns.entry(k.clone()).or_default();
                    for fl in it {
                        match fl { "external" => e.external = true, "skip" => e.skip = true, x => panic!("bad flag {x}") }
                    }
                    cur = Some(k);
                    sect = Sect::None;
                }
                "ret" => s.fns.get_mut(cur.as_ref().unwrap()).unwrap().ret = Some(rest.to_string()),
                "attr" => { let e = s.fns.get_mut(cur.as_ref().unwrap()).unwrap(); e.attr.push_str(rest); e.attr.push('\n'); }
                "params" => s.fns.get_mut(cur.as_ref().unwrap()).unwrap().ghost_params = rest.to_string(),
                "arg" => { let (n, a) = rest.split_once(' ').unwrap(); s.fns.get_mut(cur.as_ref().unwrap()).unwrap().args.insert(n.to_string(), a.to_string()); }
                "spec" => sect = Sect::Spec,
                "loop" => sect = Sect::Loop(rest.parse().unwrap()),
                "at" => sect = Sect::At(rest.to_string()),
                "end" => sect = Sect::None,
                x => panic!("unknown directive {x}"),
            }
            if let Sect::At(a) = &sect {
                if w == "at" { s.fns.get_mut(cur.as_ref().unwrap()).unwrap().anchors.push((a.clone(), String::new())); }
            }
            continue;
        }
        match &sect {
            Sect::None => {}
            Sect::Raw(m) => { let e = s.module_raw.entry(m.clone()).or_default(); e.push_str(line); e.push('\n'); }
            Sect::Field(t) => { let e = s.fields.entry(t.clone()).or_default(); e.push_str(line); e.push('\n'); }
            Sect::Init(t) => { let e = s.inits.entry(t.clone()).or_default(); e.push_str(line); e.push('\n'); }
            Sect::Spec => { let e = s.fns.get_mut(cur.as_ref().unwrap()).unwrap(); e.spec.push_str(line); e.spec.push('\n'); }
            Sect::Loop(n) => { let e = s.fns.get_mut(cur.as_ref().unwrap()).unwrap(); let l = e.loops.entry(*n).or_default(); l.push_str(line); l.push('\n'); }
            Sect::At(_) => { let e = s.fns.get_mut(cur.as_ref().unwrap()).unwrap(); let a = e.anchors.last_mut().unwrap(); a.1.push_str(line); a.1.push('\n'); }
        }
    }
}

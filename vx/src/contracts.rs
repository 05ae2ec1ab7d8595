//! Reader of the contract files (*.vc).
//!
//! A contract file is a sequence of directives, each starting at column 0 with `@@`:
//!
//!   @@module PATH            ghost text appended to the module PATH ("" = crate root)
//!   @@trait PATH             ghost text put into the trait
//!   @@impl KEY               ghost text put into the impl block KEY
//!   @@struct PATH            attributes for the struct
//!   @@fn KEY                 starts the contract of a function; the following belong to it:
//!   @@props C01 C02 ...        the properties that depend on the function
//!   @@mode normal|lift|external|drop
//!   @@ret NAME                 name of the result (default r)
//!   @@attrs                    verifier attributes
//!   @@spec                     requires / ensures
//!   @@valid                    condition under which the assert!s of the body must hold
//!   @@bv TYPE                  requires / ensures (over __result) decided by the bit-vector solver
//!   @@loop N                   invariants of the N-th loop (pre-order, after desugaring)
//!   @@at WHERE                 ghost code: entry | exit | loop N before|begin|end|after | letafter NAME
//!   @@closure N                spec of the N-th remaining closure: first line = parameters
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub key: String,
    pub props: Vec<String>,
    pub mode: String,
    pub ret: String,
    pub attrs: String,
    pub spec: String,
    pub valid: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub ats: BTreeMap<String, String>,
    pub closures: BTreeMap<usize, String>,
    pub bv: Option<(String, String)>,
    pub used: bool,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub modules: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub structs: BTreeMap<String, String>,
}

pub fn squeeze(s: &str) -> String {
    // drop the spaces that do not separate two words
    let b: Vec<char> = s.trim().chars().collect();
    let mut out = String::new();
    let w = |c: char| c.is_alphanumeric() || c == '_';
    for (i, c) in b.iter().enumerate() {
        if c.is_whitespace() {
            let p = out.chars().last().unwrap_or(' ');
            let n = b[i + 1..].iter().find(|c| !c.is_whitespace()).copied().unwrap_or(' ');
            if (w(p) || p == '>') && w(n) && !p.is_whitespace() {
                out.push(' ');
            }
        } else {
            out.push(*c);
        }
    }
    out
}

pub fn load(dir: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap_or_else(|e| panic!("{}: {}", dir, e))
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut cur_fn: Option<String> = None;
        // (kind, argument, text)
        let mut blocks: Vec<(String, String, String)> = vec![];
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("@@") {
                let mut it = rest.splitn(2, char::is_whitespace);
                let kind = it.next().unwrap().to_string();
                let arg = it.next().unwrap_or("").trim().to_string();
                if kind == "#" {
                    continue;
                }
                blocks.push((kind, arg, String::new()));
            } else if let Some(b) = blocks.last_mut() {
                b.2.push_str(line);
                b.2.push('\n');
            }
        }
        for (kind, arg, text) in blocks {
            match kind.as_str() {
                "module" => c.modules.entry(arg).or_default().push_str(&text),
                "trait" => {
                    c.traits.entry(squeeze(&arg)).or_default().push_str(&text);
                }
                "impl" => c.impls.entry(squeeze(&arg)).or_default().push_str(&text),
                "struct" => c.structs.entry(arg).or_default().push_str(&text),
                "fn" => {
                    let key = squeeze(&arg);
                    if c.fns.contains_key(&key) {
                        panic!("duplicate contract {}", key);
                    }
                    c.fns.insert(
                        key.clone(),
                        FnContract { key: key.clone(), mode: "normal".into(), ret: "r".into(), ..Default::default() },
                    );
                    cur_fn = Some(key);
                }
                k => {
                    let key = cur_fn.clone().unwrap_or_else(|| panic!("{} outside of @@fn in {:?}", k, f));
                    let fc = c.fns.get_mut(&key).unwrap();
                    match k {
                        "props" => fc.props = arg.split_whitespace().map(|s| s.to_string()).collect(),
                        "mode" => fc.mode = arg,
                        "ret" => fc.ret = arg,
                        "attrs" => fc.attrs.push_str(&format!("{}\n{}", arg, text)),
                        "spec" => fc.spec.push_str(&text),
                        "bv" => fc.bv = Some((arg, text)),
                        "valid" => fc.valid = Some(text.trim().to_string()),
                        "loop" => {
                            fc.loops.insert(arg.parse().expect("loop number"), text);
                        }
                        "at" => {
                            let arg = arg.split_whitespace().collect::<Vec<_>>().join(" ");
                            fc.ats.entry(arg).or_default().push_str(&text);
                        }
                        "closure" => {
                            fc.closures.insert(arg.parse().expect("closure number"), text);
                        }
                        _ => panic!("unknown directive @@{} in {:?}", k, f),
                    }
                }
            }
        }
    }
    c
}

//! Parser for the contract files (`*.vc`).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct Contract {
    pub id: String,
    pub props: Vec<String>,
    pub attrs: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub ret: String,
    pub loops: BTreeMap<usize, String>,
    pub ghosts: Vec<(String, String)>,
    pub replaces: Vec<(String, String)>,
    pub trusted: bool,
    pub inline: bool,
    pub omit: bool,
    pub native_loops: Vec<usize>,
    pub where_: String, // file:line of the contract
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub modtext: BTreeMap<String, String>,
    pub consts: BTreeMap<String, String>,
    pub rename_path: Vec<(String, String)>,
    pub rename_method: Vec<(String, String)>,
    pub rename_type: Vec<(String, String)>,
    pub split: BTreeSet<String>,
    pub skip: Vec<String>,
    pub derive: BTreeMap<String, String>,
}

pub fn parse(dir: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        parse_file(&mut c, &f);
    }
    c
}

fn parse_file(c: &mut Contracts, path: &std::path::Path) {
    let text = std::fs::read_to_string(path).unwrap();
    let name = path.file_name().unwrap().to_string_lossy().to_string();
    // current sink
    enum Sink {
        None,
        Req,
        Ens,
        Dec,
        Loop(usize),
        Ghost(String),
        Trait(String),
        Impl(String),
        Mod(String),
        Const(String),
    }
    let mut sink = Sink::None;
    let mut cur: Option<Contract> = None;
    let mut prefix = String::new();
    let flush = |c: &mut Contracts, cur: &mut Option<Contract>| {
        if let Some(k) = cur.take() {
            if c.fns.contains_key(&k.id) {
                panic!("duplicate contract {}", k.id);
            }
            c.fns.insert(k.id.clone(), k);
        }
    };
    for (ln, line) in text.lines().enumerate() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            let d = d.trim();
            let (kw, rest) = match d.split_once(char::is_whitespace) {
                Some((a, b)) => (a, b.trim()),
                None => (d, ""),
            };
            let full = |r: &str| {
                if prefix.is_empty() {
                    r.to_string()
                } else {
                    format!("{prefix}::{r}")
                }
            };
            match kw {
                "module" => {
                    flush(c, &mut cur);
                    prefix = rest.to_string();
                    sink = Sink::None;
                }
                "fn" => {
                    flush(c, &mut cur);
                    cur = Some(Contract {
                        id: full(rest),
                        ret: "r".into(),
                        where_: format!("{name}:{}", ln + 1),
                        ..Default::default()
                    });
                    sink = Sink::None;
                }
                "props" => cur.as_mut().unwrap().props = rest.split_whitespace().map(|s| s.to_string()).collect(),
                "attr" => {
                    let a = &mut cur.as_mut().unwrap().attrs;
                    a.push_str(rest);
                    a.push('\n');
                }
                "ret" => cur.as_mut().unwrap().ret = rest.to_string(),
                "trusted" => cur.as_mut().unwrap().trusted = true,
                "inline" => cur.as_mut().unwrap().inline = true,
                "omit" => cur.as_mut().unwrap().omit = true,
                "native-loop" => cur.as_mut().unwrap().native_loops.push(rest.parse().unwrap()),
                "requires" => sink = Sink::Req,
                "ensures" => sink = Sink::Ens,
                "decreases" => sink = Sink::Dec,
                "loop" => sink = Sink::Loop(rest.parse().unwrap()),
                "ghost" => {
                    sink = Sink::Ghost(rest.to_string());
                    cur.as_mut().unwrap().ghosts.push((rest.to_string(), String::new()));
                }
                "replace" => {
                    let (a, b) = rest.split_once("=>").unwrap_or_else(|| panic!("{name}:{} replace", ln + 1));
                    cur.as_mut().unwrap().replaces.push((a.trim().into(), b.trim().into()));
                }
                "trait" => {
                    flush(c, &mut cur);
                    sink = Sink::Trait(full(rest))
                }
                "impl" => {
                    flush(c, &mut cur);
                    sink = Sink::Impl(full(rest))
                }
                "mod" => {
                    flush(c, &mut cur);
                    sink = Sink::Mod(rest.to_string())
                }
                "const" => {
                    flush(c, &mut cur);
                    sink = Sink::Const(full(rest));
                    c.consts.insert(full(rest), String::new());
                }
                "rename-path" | "rename-method" | "rename-type" => {
                    let (a, b) = rest.split_once("=>").unwrap();
                    let p = (a.trim().to_string(), b.trim().to_string());
                    match kw {
                        "rename-path" => c.rename_path.push(p),
                        "rename-method" => c.rename_method.push(p),
                        _ => c.rename_type.push(p),
                    }
                }
                "derive" => {
                    let (a, b) = rest.split_once("=>").unwrap();
                    c.derive.insert(full(a.trim()), b.trim().to_string());
                }
                "skip" => c.skip.push(full(rest)),
                "split-trait" => { c.split.insert(full(rest)); }
                "#" => {}
                _ => panic!("{name}:{}: unknown directive {kw}", ln + 1),
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sink {
            Sink::None => {
                if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                    panic!("{name}:{}: text outside section", ln + 1)
                }
            }
            Sink::Req => add(&mut cur.as_mut().unwrap().requires),
            Sink::Ens => add(&mut cur.as_mut().unwrap().ensures),
            Sink::Dec => add(&mut cur.as_mut().unwrap().decreases),
            Sink::Loop(k) => add(cur.as_mut().unwrap().loops.entry(*k).or_default()),
            Sink::Ghost(_) => add(&mut cur.as_mut().unwrap().ghosts.last_mut().unwrap().1),
            Sink::Trait(k) => add(c.traits.entry(k.clone()).or_default()),
            Sink::Impl(k) => add(c.impls.entry(k.clone()).or_default()),
            Sink::Mod(k) => add(c.modtext.entry(k.clone()).or_default()),
            Sink::Const(k) => add(c.consts.get_mut(k).unwrap()),
        }
    }
    flush(c, &mut cur);
}

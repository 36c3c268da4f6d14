//! Contract files: `*.vc`, sections introduced by lines starting with `@@`; `*.rs` in the same
//! directory is verbatim Verus text placed at the top of the output (the shim).
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Default, Clone)]
pub struct FnC {
    pub spec: String,
    pub external: bool,
    pub ret: Option<String>,
    pub attrs: String,
    /// hint kind ("start", "loop 0", "body 0", "bodyend 0", "before 0", "after 0", "tail") -> text
    pub hints: BTreeMap<String, String>,
    /// expected loop headers, one per loop; empty = not checked
    pub nloops: Option<usize>,
    /// expected number of top-level `if` statements
    pub nifs: Option<usize>,
    /// without the lemmas about sequences (in a `light` module)
    pub light: bool,
}

#[derive(Default)]
pub struct Contracts {
    pub fns: HashMap<String, FnC>,
    pub impls: HashMap<String, String>,
    pub mods: HashMap<String, String>,
    pub uses: HashMap<String, String>,
    pub types: HashMap<String, String>,
    pub drops: HashSet<String>,
    /// modules where the lemmas about sequences are brought in function by function
    pub light: HashSet<String>,
}

pub fn load(dir: &str) -> (Contracts, String) {
    let mut c = Contracts::default();
    let mut shim = String::new();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let ext = f.extension().and_then(|e| e.to_str()).unwrap_or("");
        if ext == "rs" {
            shim.push_str(&std::fs::read_to_string(&f).unwrap());
            continue;
        }
        if ext != "vc" {
            continue;
        }
        let text = std::fs::read_to_string(&f).unwrap();
        let mut sec: Option<(String, String)> = None; // (kind, key)
        let mut sub = String::new();
        for (ln, line) in text.lines().enumerate() {
            if let Some(h) = line.strip_prefix("@@ ") {
                let h = h.trim();
                let (kind, key) = h.split_once(' ').unwrap_or((h, ""));
                let key = key.trim().to_string();
                sub = String::new();
                match kind {
                    "drop" => {
                        c.drops.insert(key);
                        sec = None;
                        continue;
                    }
                    "light" => {
                        c.light.insert(key);
                        sec = None;
                        continue;
                    }
                    "fn" => {
                        let mut k = key.clone();
                        let mut ext = false;
                        if let Some(x) = k.strip_suffix(" external") {
                            k = x.to_string();
                            ext = true;
                        }
                        let e = c.fns.entry(k.clone()).or_default();
                        e.external |= ext;
                        sec = Some(("fn".into(), k));
                    }
                    "impl" | "trait" => {
                        c.impls.entry(key.clone()).or_default();
                        sec = Some(("impl".into(), key));
                    }
                    "mod" => sec = Some(("mod".into(), key)),
                    "use" => sec = Some(("use".into(), key)),
                    "type" => sec = Some(("type".into(), key)),
                    _ => panic!("{}:{}: unknown section {kind}", f.display(), ln + 1),
                }
                continue;
            }
            if line.starts_with("@@#") || line == "@@" {
                continue;
            }
            let Some((kind, key)) = &sec else { continue };
            let l = format!("{line}\n");
            match kind.as_str() {
                "fn" => {
                    let e = c.fns.get_mut(key).unwrap();
                    if let Some(s) = line.strip_prefix('@') {
                        let s = s.trim();
                        if let Some(r) = s.strip_prefix("ret ") {
                            e.ret = Some(r.to_string());
                        } else if let Some(r) = s.strip_prefix("attr ") {
                            e.attrs.push_str(r);
                            e.attrs.push('\n');
                        } else if let Some(r) = s.strip_prefix("loops ") {
                            e.nloops = Some(r.trim().parse().unwrap());
                        } else if s == "light" {
                            e.light = true;
                        } else if let Some(r) = s.strip_prefix("ifs ") {
                            e.nifs = Some(r.trim().parse().unwrap());
                        } else {
                            sub = s.to_string();
                            e.hints.entry(sub.clone()).or_default();
                        }
                    } else if sub.is_empty() {
                        e.spec.push_str(&l);
                    } else {
                        e.hints.get_mut(&sub).unwrap().push_str(&l);
                    }
                }
                "impl" => c.impls.get_mut(key).unwrap().push_str(&l),
                "mod" => c.mods.entry(key.clone()).or_default().push_str(&l),
                "use" => c.uses.entry(key.clone()).or_default().push_str(&l),
                "type" => c.types.entry(key.clone()).or_default().push_str(&l),
                _ => {}
            }
        }
    }
    (c, shim)
}

pub fn unused(c: &Contracts, used: &BTreeSet<String>) -> Vec<String> {
    let mut v = vec![];
    for k in c.fns.keys() {
        if !used.contains(&format!("fn {k}")) {
            v.push(format!("fn {k}"));
        }
    }
    for k in c.impls.keys() {
        if !used.contains(&format!("impl {k}")) {
            v.push(format!("impl {k}"));
        }
    }
    for k in c.mods.keys() {
        if !used.contains(&format!("mod {k}")) {
            v.push(format!("mod {k}"));
        }
    }
    v.sort();
    v
}

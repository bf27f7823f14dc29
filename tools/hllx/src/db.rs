//! The specification database: contracts.vs + baseline.json.
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub ret: String,
    pub attrs: String,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    /// the same loop written another way: (number, "range" | "while" | "for" | "loop")
    pub loop_kinds: BTreeMap<(usize, String), String>,
    pub closures: BTreeMap<usize, (String, String)>, // params, ret+contract
    pub anchors: Vec<(Vec<String>, String)>,
}

#[derive(Default)]
pub struct Db {
    pub fns: BTreeMap<String, FnSpec>,
    pub sigs: BTreeMap<String, String>,
    pub bindings: HashMap<String, Vec<String>>,
    pub alias: Vec<(String, String)>,
    /// other sets of hints for the same contract: (function, name)
    pub variants: BTreeMap<(String, String), FnSpec>,
    /// named fields of each struct, in order: (name, type)
    pub fields: BTreeMap<String, Vec<(String, String)>>,
    /// digests of each function's text, per feature set
    pub hashes: BTreeMap<String, Vec<String>>,
}

impl Db {
    pub fn load(dir: &str) -> Db {
        let mut db = Db::default();
        let mut names: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().file_name().to_string_lossy().to_string())
            .filter(|n| n.ends_with(".vs"))
            .collect();
        names.sort();
        for n in names {
            let t = std::fs::read_to_string(format!("{}/{}", dir, n)).unwrap();
            db.parse(&t);
        }
        if let Ok(t) = std::fs::read_to_string(format!("{}/baseline.json", dir)) {
            let v: serde_json::Value = serde_json::from_str(&t).unwrap();
            for (k, s) in v["sigs"].as_object().unwrap() {
                db.sigs.insert(k.clone(), s.as_str().unwrap().to_string());
            }
            if let Some(m) = v["fields"].as_object() {
                for (k, s) in m {
                    let l = s.as_array().unwrap().iter();
                    db.fields.insert(k.clone(), l.map(|x| (x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into())).collect());
                }
            }
            if let Some(m) = v["hashes"].as_object() {
                for (k, s) in m {
                    db.hashes.insert(k.clone(), s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect());
                }
            }
            for (k, s) in v["bindings"].as_object().unwrap() {
                db.bindings.insert(
                    k.clone(),
                    s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                );
            }
        }
        db
    }

    fn parse(&mut self, t: &str) {
        let mut cur: Option<(String, FnSpec)> = None;
        // current sink: 0 none, 1 contract, 2 loop n, 3 anchor, 4 closure n
        let mut sink: (u8, usize) = (0, 0);
        let mut kind = String::new();
        for line in t.lines() {
            if let Some(d) = line.strip_prefix('@') {
                let w: Vec<&str> = d.split_whitespace().collect();
                match w[0] {
                    "fn" => {
                        self.flush(cur.take());
                        cur = Some((w[1].to_string(), FnSpec { ret: "ret".into(), ..Default::default() }));
                        sink = (1, 0);
                    }
                    // the same contract, with other loop invariants and hints
                    "variant" => {
                        let (k, s) = cur.take().unwrap();
                        let f = k.split('#').next().unwrap().to_string();
                        let v = FnSpec { ret: s.ret.clone(), attrs: s.attrs.clone(), contract: s.contract.clone(), ..Default::default() };
                        self.flush(Some((k, s)));
                        cur = Some((format!("{}#{}", f, w[1]), v));
                        sink = (0, 0);
                    }
                    "alias" => {
                        self.alias.push((w[1].into(), w[2].into()));
                    }
                    "attr" => {
                        let s = &mut cur.as_mut().unwrap().1;
                        s.attrs.push_str(d["attr".len()..].trim());
                        s.attrs.push('\n');
                    }
                    "contract" => sink = (1, 0),
                    "loop" => {
                        let n: usize = w[1].parse().unwrap();
                        if let Some(k) = w.get(2) {
                            kind = k.to_string();
                            sink = (5, n);
                            cur.as_mut().unwrap().1.loop_kinds.insert((n, kind.clone()), String::new());
                            continue;
                        }
                        sink = (2, n);
                        cur.as_mut().unwrap().1.loops.insert(n, String::new());
                    }
                    "closure" => {
                        let n: usize = w[1].parse().unwrap();
                        sink = (4, n);
                        let params = d.splitn(3, ' ').nth(2).unwrap_or("").to_string();
                        cur.as_mut().unwrap().1.closures.insert(n, (params, String::new()));
                    }
                    "at" => {
                        let s = &mut cur.as_mut().unwrap().1;
                        s.anchors.push((w[1..].iter().map(|x| x.to_string()).collect(), String::new()));
                        sink = (3, 0);
                    }
                    "#" => {}
                    x => panic!("bad directive @{}", x),
                }
                continue;
            }
            let Some((_, s)) = cur.as_mut() else { continue };
            let dst = match sink.0 {
                1 => &mut s.contract,
                2 => s.loops.get_mut(&sink.1).unwrap(),
                5 => s.loop_kinds.get_mut(&(sink.1, kind.clone())).unwrap(),
                3 => &mut s.anchors.last_mut().unwrap().1,
                4 => &mut s.closures.get_mut(&sink.1).unwrap().1,
                _ => continue,
            };
            dst.push_str(line);
            dst.push('\n');
        }
        self.flush(cur.take());
    }

    fn flush(&mut self, cur: Option<(String, FnSpec)>) {
        if let Some((k, s)) = cur {
            match k.split_once('#') {
                Some((f, v)) => {
                    self.variants.insert((f.into(), v.into()), s);
                }
                None => {
                    self.fns.insert(k, s);
                }
            }
        }
    }

    pub fn variants_of(&self, key: &str) -> Vec<String> {
        self.variants.keys().filter(|(f, _)| f == key).map(|(_, v)| v.clone()).collect()
    }

    /// The contract key for a function: its own, an alias of it, or the trait default's.
    pub fn resolve(&self, key: &str, dflt: &str) -> Option<String> {
        if self.fns.contains_key(key) {
            return Some(key.to_string());
        }
        for (a, b) in &self.alias {
            if let Some(rest) = key.strip_prefix(&format!("{}::", a)) {
                let k = format!("{}::{}", b, rest);
                if self.fns.contains_key(&k) {
                    return Some(k);
                }
            }
        }
        if !dflt.is_empty() && self.fns.contains_key(dflt) {
            return Some(dflt.to_string());
        }
        None
    }
}

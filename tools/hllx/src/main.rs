//! hllx: mechanical extraction of the Rust source (after rustc macro/cfg
//! expansion) into a Verus input file, with contracts, loop invariants and
//! proof hints from a specification database spliced in.
//!
//!   hllx EXPANDED.rs SPECDIR OUT.rs META.json [--bless] [--stub KEY]...
mod db;
mod derive;
mod rewrite;
use db::*;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Fun {
    pub key: String,      // Type::method or free name
    pub dbkey: String,    // key of the contract that applies ("" if none)
    pub self_ty: String,  // "" for free functions
    pub header: String,   // text of the impl header ("" for free functions)
    pub sig: Signature,
    pub block: Block,
    pub module: String,
}

#[derive(Default)]
pub struct Ctx {
    pub funs: Vec<Fun>,
    pub types: Vec<(String, String)>, // name, text
    pub int_consts: BTreeMap<String, (i128, String)>,
    pub float_consts: BTreeMap<String, u64>,
    pub fn_consts: BTreeSet<String>, // consts turned into functions
    pub tables: BTreeMap<String, Vec<Vec<u64>>>,
    pub dropped: Vec<String>,
    pub notes: Vec<String>,
    pub markers: Vec<String>,
    pub prim_methods: BTreeSet<(String, String)>,
    pub mods: BTreeSet<String>,
    pub traits: BTreeMap<String, Vec<(Signature, Option<Block>)>>,
    pub trait_impls: Vec<(String, String, String)>, // trait, self_ty, header
}

pub fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => ts(t),
    }
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i32", "i64", "f64"];

fn const_int(e: &Expr, cx: &Ctx, self_ty: &str, ty: &str) -> Option<i128> {
    let bits = |t: &str| match t {
        "u8" => 8,
        "u16" => 16,
        "u32" | "i32" => 32,
        _ => 64,
    };
    Some(match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<i128>().ok()?,
        Expr::Paren(p) => const_int(&p.expr, cx, self_ty, ty)?,
        Expr::Group(p) => const_int(&p.expr, cx, self_ty, ty)?,
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => const_int(e, cx, self_ty, ty)?,
            _ => return None,
        },
        Expr::Cast(c) => {
            let v = const_int(&c.expr, cx, self_ty, &ts(&c.ty))?;
            let b = bits(&ts(&c.ty));
            v & ((1i128 << b) - 1)
        }
        Expr::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = segs.last().unwrap().clone();
            let key = if segs.len() > 1 {
                let t = &segs[segs.len() - 2];
                if t == "Self" {
                    format!("{}::{}", self_ty, name)
                } else {
                    format!("{}::{}", t, name)
                }
            } else {
                name.clone()
            };
            cx.int_consts.get(&key).or_else(|| cx.int_consts.get(&name))?.0
        }
        Expr::Unary(u) => {
            let v = const_int(&u.expr, cx, self_ty, ty)?;
            match u.op {
                UnOp::Not(_) => !v & ((1i128 << bits(ty)) - 1),
                UnOp::Neg(_) => -v,
                _ => return None,
            }
        }
        Expr::Binary(b) => {
            let l = const_int(&b.left, cx, self_ty, ty)?;
            let r = const_int(&b.right, cx, self_ty, ty)?;
            let v = match b.op {
                BinOp::Add(_) => l + r,
                BinOp::Sub(_) => l - r,
                BinOp::Mul(_) => l * r,
                BinOp::Div(_) => l / r,
                BinOp::Rem(_) => l % r,
                BinOp::Shl(_) => l << r,
                BinOp::Shr(_) => l >> r,
                BinOp::BitAnd(_) => l & r,
                BinOp::BitOr(_) => l | r,
                BinOp::BitXor(_) => l ^ r,
                _ => return None,
            };
            // overflow in a constant is a compile error in rustc; keep the value
            v
        }
        _ => return None,
    })
}

fn float_lit(e: &Expr) -> Option<f64> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => f.base10_parse::<f64>().ok(),
        Expr::Lit(ExprLit { lit: Lit::Int(f), .. }) => f.base10_parse::<f64>().ok(),
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => Some(-float_lit(&u.expr)?),
        Expr::Paren(p) => float_lit(&p.expr),
        _ => None,
    }
}

fn float_table(e: &Expr) -> Option<Vec<Vec<u64>>> {
    fn arr(e: &Expr) -> Option<&ExprArray> {
        match e {
            Expr::Reference(r) => arr(&r.expr),
            Expr::Array(a) => Some(a),
            _ => None,
        }
    }
    let mut out = vec![];
    for row in &arr(e)?.elems {
        let mut r = vec![];
        for x in &arr(row)?.elems {
            r.push(float_lit(x)?.to_bits());
        }
        out.push(r);
    }
    Some(out)
}

impl Ctx {
    pub fn mark(&mut self, text: &str) -> Stmt {
        let n = self.markers.len();
        self.markers.push(text.to_string());
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        Stmt::Macro(StmtMacro {
            attrs: vec![],
            mac: parse_quote!(__vx!(#lit)),
            semi_token: Some(Default::default()),
        })
    }

    fn add_const(&mut self, name: &Ident, ty: &Type, e: &Expr, self_ty: &str, header: &str) {
        let key = if self_ty.is_empty() { name.to_string() } else { format!("{}::{}", self_ty, name) };
        let t = ts(ty);
        if PRIMS.contains(&t.as_str()) && t != "f64" {
            if let Some(v) = const_int(e, self, self_ty, &t) {
                self.int_consts.insert(key.clone(), (v, t.clone()));
                let text = if header.is_empty() {
                    format!("pub const {}: {} = {};\n", name, t, v)
                } else {
                    format!("{} {{ pub const {}: {} = {}; }}\n", header, name, t, v)
                };
                self.types.push((key, text));
                return;
            }
        }
        if t == "f64" {
            if let Some(v) = float_lit(e) {
                self.float_consts.insert(key, v.to_bits());
                return;
            }
        }
        if let Some(tab) = float_table(e) {
            self.tables.insert(key.clone(), tab);
            self.fn_consts.insert(key);
            return;
        }
        // other constants: turned into a function
        let block: Block = match e {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        let fname = format_ident_const(name);
        self.fn_consts.insert(name.to_string());
        let sig: Signature = parse_quote!(fn #fname() -> #ty);
        self.funs.push(Fun {
            key: name.to_string(),
            dbkey: String::new(),
            self_ty: self_ty.into(),
            header: header.into(),
            sig,
            block,
            module: String::new(),
        });
    }

    fn walk(&mut self, items: &[Item], module: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    let name = m.ident.to_string();
                    self.mods.insert(name.clone());
                    if let Some((_, its)) = &m.content {
                        self.walk(its, &name);
                    }
                }
                Item::Struct(s) => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    match &mut s.fields {
                        Fields::Named(n) => {
                            for f in n.named.iter_mut() {
                                f.attrs.clear();
                                f.vis = parse_quote!(pub);
                            }
                        }
                        Fields::Unnamed(n) => {
                            for f in n.unnamed.iter_mut() {
                                f.attrs.clear();
                                f.vis = parse_quote!(pub);
                            }
                        }
                        _ => {}
                    }
                    rewrite::TypeMap.visit_item_struct_mut(&mut s);
                    self.types.push((s.ident.to_string(), rustfmt(&ts(&s))));
                }
                Item::Enum(e) => {
                    let mut e = e.clone();
                    e.attrs.clear();
                    for v in e.variants.iter_mut() {
                        v.attrs.clear();
                    }
                    e.vis = parse_quote!(pub);
                    self.types.push((e.ident.to_string(), rustfmt(&ts(&e))));
                }
                Item::Fn(f) => {
                    let key = f.sig.ident.to_string();
                    self.funs.push(Fun {
                        key,
                        dbkey: String::new(),
                        self_ty: String::new(),
                        header: String::new(),
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        module: module.into(),
                    });
                }
                Item::Const(c) if c.ident != "_" => {
                    self.add_const(&c.ident, &c.ty, &c.expr, "", "");
                }
                Item::Static(c) => {
                    self.add_const(&c.ident, &c.ty, &c.expr, "", "");
                }
                Item::Trait(t) => {
                    let mut v = vec![];
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            v.push((f.sig.clone(), f.default.clone()));
                        }
                    }
                    self.traits.insert(t.ident.to_string(), v);
                }
                Item::Impl(im) => self.walk_impl(im, module),
                Item::Const(_) => self.dropped.push("serde derive output".into()),
                Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
                other => self.notes.push(format!("item not extracted: {}", ts(other).chars().take(60).collect::<String>())),
            }
        }
    }

    fn walk_impl(&mut self, im: &ItemImpl, module: &str) {
        let derived = im.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
        let self_name = type_name(&im.self_ty);
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        if derived {
            self.dropped.push(format!("derived impl {} for {}", tr.unwrap_or_default(), self_name));
            return;
        }
        if let Some(t) = &tr {
            if ["Display", "Error", "Debug", "Drop", "Serialize", "Deserialize", "Clone", "Default", "PartialEq"].contains(&t.as_str()) {
                self.dropped.push(format!("impl {} for {}", t, self_name));
                if t == "Drop" || t == "Clone" {
                    self.notes.push(format!("hand-written impl {} for {} is not modelled", t, self_name));
                }
                return;
            }
        }
        let prim = PRIMS.contains(&self_name.as_str());
        let mut gens = im.generics.clone();
        let wc = gens.where_clause.take();
        let self_ty: &Type = match &*im.self_ty {
            Type::Reference(r) => &r.elem,
            t => t,
        };
        let header = if prim {
            String::new()
        } else {
            format!("impl{} {} {}", ts(&gens), ts(self_ty), wc.map(|w| ts(&w)).unwrap_or_default())
        };
        // associated types
        let mut assoc: HashMap<String, Type> = HashMap::new();
        for i in &im.items {
            if let ImplItem::Type(t) = i {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        if let Some(t) = &tr {
            self.trait_impls.push((t.clone(), self_name.clone(), header.clone()));
        }
        for i in &im.items {
            match i {
                ImplItem::Const(c) => {
                    let sn = if prim { String::new() } else { self_name.clone() };
                    self.add_const(&c.ident, &c.ty, &c.expr, &sn, &header)
                }
                ImplItem::Fn(f) => {
                    let mut sig = f.sig.clone();
                    let mut block = f.block.clone();
                    let mut am = rewrite::AssocMap { assoc: &assoc };
                    am.visit_signature_mut(&mut sig);
                    am.visit_block_mut(&mut block);
                    let mut key = format!("{}::{}", self_name, sig.ident);
                    if prim {
                        self.prim_methods.insert((self_name.clone(), sig.ident.to_string()));
                        let n = format!("{}_{}", self_name, sig.ident);
                        key = n.clone();
                        sig.ident = Ident::new(&n, sig.ident.span());
                    }
                    if let Type::Reference(r) = &*im.self_ty {
                        // impl Trait for &'a X: self by value is &'a X
                        if let Some(FnArg::Receiver(rc)) = sig.inputs.first_mut() {
                            let lt = r.lifetime.clone();
                            *rc = match lt {
                                Some(l) => parse_quote!(& #l self),
                                None => parse_quote!(&self),
                            };
                        }
                    }
                    self.funs.push(Fun {
                        key,
                        dbkey: String::new(),
                        self_ty: if prim { String::new() } else { self_name.clone() },
                        header: header.clone(),
                        sig,
                        block,
                        module: module.into(),
                    });
                }
                _ => {}
            }
        }
    }

    /// default methods of local traits, instantiated in each implementing type
    fn instantiate_defaults(&mut self) {
        let mut add = vec![];
        for (t, sty, header) in &self.trait_impls {
            if let Some(ms) = self.traits.get(t) {
                for (sig, def) in ms {
                    let key = format!("{}::{}", sty, sig.ident);
                    if let Some(b) = def {
                        if PRIMS.contains(&sty.as_str()) {
                            continue;
                        }
                        if !self.funs.iter().any(|f| f.key == key) {
                            add.push(Fun {
                                key,
                                dbkey: format!("{}::{}", t, sig.ident),
                                self_ty: sty.clone(),
                                header: header.clone(),
                                sig: sig.clone(),
                                block: b.clone(),
                                module: "".into(),
                            });
                        }
                    }
                }
            }
        }
        self.funs.extend(add);
    }
}

fn format_ident_const(name: &Ident) -> Ident {
    name.clone()
}

pub fn rustfmt(src: &str) -> String {
    use std::io::Write;
    use std::process::*;
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    c.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if o.status.success() {
        String::from_utf8(o.stdout).unwrap()
    } else {
        eprintln!("rustfmt failed on:\n{}\n{}", src, String::from_utf8_lossy(&o.stderr));
        src.to_string()
    }
}

/// Splices marker texts into formatted source.
pub fn splice(text: &str, markers: &[String]) -> String {
    let mut out = text.to_string();
    loop {
        let Some(p) = out.find("__vx!(") else { break };
        let q = p + out[p..].find(");").unwrap();
        let n: usize = out[p + 6..q].trim().parse().unwrap();
        let end = q + 2;
        let t = &markers[n];
        if let Some(hdr) = t.strip_prefix("^") {
            // belongs between the header and the `{` that opens this block
            let before = out[..p].trim_end();
            assert!(before.ends_with('{'), "marker not at block start: {}", before);
            let cut = before.len() - 1;
            let new = format!("{}\n{}\n{{{}", out[..cut].trim_end(), hdr, &out[end..]);
            out = new;
        } else {
            out = format!("{}{}{}", &out[..p], t, &out[end..]);
        }
    }
    out
}

/// `/*@std FILE NAME <loop header> @std*/` in the header becomes the body of the
/// library's own function NAME, from the toolchain's source. What is rewritten
/// is listed here; if the text is not available or has another shape the
/// function keeps its contract and is assumed.
fn std_bodies(header: &str) -> (String, Vec<String>) {
    let (Some(a), Some(b)) = (header.find("/*@std "), header.find("@std*/")) else { return (header.to_string(), vec![]) };
    let spec = &header[a + 7..b];
    let (line, inv) = spec.split_once('\n').unwrap();
    let (file, name) = line.trim().split_once(' ').unwrap();
    let (body, attr, note) = match std_body(file, name, inv) {
        Some(t) => (t, "", format!("{} {}: verified, text of the toolchain's source", file, name)),
        None => ("unimplemented!()\n".to_string(), "#[verifier::external_body] ", format!("{} {}: assumed, source not available", file, name)),
    };
    let t = format!("{}{}{}", &header[..a], body, &header[b + 6..]);
    (t.replace("/*@stdattr*/", attr), vec![note])
}

fn std_body(file: &str, name: &str, inv: &str) -> Option<String> {
    let o = std::process::Command::new("rustc").args(["--print", "sysroot"]).output().ok()?;
    let root = String::from_utf8(o.stdout).ok()?;
    let src = std::fs::read_to_string(format!("{}/lib/rustlib/src/rust/library/core/src/{}", root.trim(), file)).ok()?;
    let i = src.find(&format!(" fn {}<", name))?;
    let i = i + src[i..].find("{\n")? + 2;
    let j = i + src[i..].find("\n    }\n")? + 1;
    let mut t: String = src[i..j].lines().filter(|l| !l.trim_start().starts_with("//")).map(|l| format!("{}\n", l)).collect();
    // an unchecked access is a checked one, its bounds an obligation
    while let Some(k) = t.find("let cmp = f(unsafe { self.get_unchecked(") {
        let e = k + t[k..].find(") });")?;
        let x = t[k + 40..e].to_string();
        t = format!("{}let cmp = f(&self[{x}]); assert(f.ensures((&self@[{x} as int],), cmp));{}", &t[..k], &t[e + 5..], x = x);
    }
    // a promise to the optimiser is an obligation
    while let Some(k) = t.find("unsafe { hint::assert_unchecked(") {
        let e = k + t[k..].find(") };")?;
        t = format!("{}assert({});{}", &t[..k], &t[k + 32..e], &t[e + 4..]);
    }
    // a hint to the optimiser has no meaning
    while let Some(k) = t.find("hint::select_unpredictable(") {
        let e = k + t[k..].find(");")?;
        let v: Vec<&str> = t[k + 27..e].split(", ").collect();
        if v.len() != 3 { return None; }
        t = format!("{}if {} {{ {} }} else {{ {} }};{}", &t[..k], v[0], v[1], v[2], &t[e + 2..]);
    }
    for x in ["Less", "Equal", "Greater"] {
        t = t.replace(&format!("(cmp == {}) as usize", x), &format!("(if cmp == {} {{ 1 }} else {{ 0 }})", x));
        t = t.replace(&format!("cmp == {}", x), &format!("matches!(cmp, {})", x));
    }
    if t.contains("unsafe") || t.contains("hint::") || t.matches("while ").count() != 1 { return None; }
    let k = t.find("while ")?;
    let e = k + t[k..].find(" {\n")?;
    Some(format!("{}\n{}{}", &t[..e], inv, &t[e..]))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = vec![];
    if args.first().map(|a| a == "derive") == Some(true) {
        // hllx derive clone|serde EXPANDED SPECDIR OUT META
        return derive::main(&args[1], &args[2], &args[3], &args[4], &args[5]);
    }
    let (mut bless, mut stubs) = (false, BTreeSet::new());
    let mut variants: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--bless" => bless = true,
            "--stub" => {
                i += 1;
                stubs.insert(args[i].clone());
            }
            "--variant" => {
                i += 1;
                let (f, v) = args[i].split_once('=').expect("--variant FN=NAME");
                variants.insert(f.to_string(), v.to_string());
            }
            a => pos.push(a.to_string()),
        }
        i += 1;
    }
    let (exp, specdir, outp, metap) = (&pos[0], &pos[1], &pos[2], &pos[3]);
    let src = std::fs::read_to_string(exp).unwrap();
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot parse expanded source: {}", e);
            std::process::exit(3);
        }
    };
    let db = Db::load(specdir);
    let mut cx = Ctx::default();
    let mut file = file;
    normalise_names(&mut file, &db, &mut cx);
    cx.walk(&file.items, "");
    cx.instantiate_defaults();

    // assign contracts
    let mut used = BTreeSet::new();
    for f in cx.funs.iter_mut() {
        if let Some(k) = db.resolve(&f.key, &f.dbkey) {
            used.insert(k.clone());
            f.dbkey = k;
        } else {
            f.dbkey = String::new();
        }
    }
    // renamed functions: a contract with no function, and exactly one function
    // without contract in the same impl with the same signature
    let mut renames: BTreeMap<String, String> = BTreeMap::new();
    let missing: Vec<String> = db.fns.keys().filter(|k| !used.contains(*k)).cloned().collect();
    for k in &missing {
        let Some(want) = db.sigs.get(k) else { continue };
        let ty = k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
        let c: Vec<usize> = (0..cx.funs.len())
            .filter(|&i| {
                let f = &cx.funs[i];
                f.dbkey.is_empty() && f.self_ty == ty && &sig_shape(&f.sig) == want
            })
            .collect();
        if c.len() == 1 {
            cx.funs[c[0]].dbkey = k.clone();
            renames.insert(k.clone(), cx.funs[c[0]].key.clone());
        }
    }

    rewrite::inline_helpers(&mut cx);

    let mut out = String::new();
    let header = std::fs::read_to_string(format!("{}/header.rs", specdir)).unwrap();
    let (header, std_note) = std_bodies(&header);
    out.push_str(&header);
    for (_, t) in &cx.types {
        out.push_str(t);
        out.push('\n');
    }
    // float tables: opaque accessors; the entries are checked elsewhere
    let mut meta_fns = vec![];
    let mut sigs = BTreeMap::new();
    let mut binds = BTreeMap::new();
    let mut hashes: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let funs = std::mem::take(&mut cx.funs);
    for f in &funs {
        let info = rewrite::emit(&mut cx, &db, f, &stubs, variants.get(&f.key));
        let Some(info) = info else {
            meta_fns.push(serde_json::json!({"key": f.key, "status": "inlined or not needed"}));
            continue;
        };
        let text = splice(&info.text, &cx.markers);
        let start = out.matches('\n').count() + 1;
        out.push_str(&text);
        out.push('\n');
        let end = out.matches('\n').count();
        if !f.dbkey.is_empty() {
            hashes.insert(f.key.clone(), vec![digest(f)]);
            sigs.insert(f.dbkey.clone(), sig_shape(&f.sig));
            binds.insert(f.dbkey.clone(), info.bindings.clone());
        }
        meta_fns.push(serde_json::json!({
            "key": f.key, "contract": f.dbkey, "status": if info.stub {"stub"} else if f.dbkey.is_empty() {"no contract"} else {"contract"},
            "lines": [start, end], "lost": info.lost, "loops": info.loops, "renamed_locals": info.renamed,
            "inlined": info.inlined, "variants": db.variants_of(&f.dbkey), "variant": variants.get(&f.key),
            "skipped": info.skipped, "same": db.hashes.get(&f.key).map(|h| h.contains(&digest(f))),
        }));
    }
    // lemma and property files
    let mut names: Vec<_> = std::fs::read_dir(specdir)
        .unwrap()
        .filter_map(|e| {
            let n = e.unwrap().file_name().to_string_lossy().to_string();
            if n.ends_with(".rs") && n != "header.rs" { Some(n) } else { None }
        })
        .collect();
    names.sort();
    let mut files = vec![];
    for n in names {
        let mut t = std::fs::read_to_string(format!("{}/{}", specdir, n)).unwrap();
        for (k, actual) in &renames {
            if let (Some((_, a)), Some((_, b))) = (k.rsplit_once("::"), actual.rsplit_once("::")) {
                t = rename_word(&t, a, b);
            }
        }
        t = conditionals(&t, &cx, &|n| sigs.contains_key(n));
        if n == "tables.rs" {
            let inc = |n: &str| std::fs::read_to_string(format!("{}/{}", specdir, n)).unwrap();
            t = t.replace("/*TABSHAPE*/", &inc("tabshape.inc"));
            if ["RAW_ESTIMATE_DATA", "BIAS_DATA"].iter().all(|n| cx.fn_consts.contains(*n)) {
                let d = inc("tabdata.inc").replace("/*TABLE_DATA*/", &rewrite::table_text(&cx)).replace("/*PUBLISHED*/", &inc("published.inc")).replace("/*TABSHAPE*/", &inc("tabshape.inc"));
                std::fs::write(format!("{}_tables.rs", outp.trim_end_matches(".rs")), d).unwrap();
            }
        }
        let start = out.matches('\n').count() + 1;
        out.push_str(&t);
        files.push(serde_json::json!({"file": n, "lines": [start, out.matches('\n').count()]}));
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(outp, &out).unwrap();
    if bless {
        let mut fields_now = named_fields(&file);
        // keep what other feature sets recorded
        for (k, v) in &db.hashes {
            let e = hashes.entry(k.clone()).or_default();
            e.extend(v.iter().cloned());
            e.sort();
            e.dedup();
        }
        if let Some(old) = std::fs::read_to_string(format!("{}/baseline.json", specdir)).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
            if let Some(m) = old["sigs"].as_object() {
                for (k, v) in m {
                    sigs.entry(k.clone()).or_insert(v.as_str().unwrap_or("").to_string());
                }
            }
            if let Some(m) = old["fields"].as_object() {
                for (k, v) in m {
                    if !fields_now.contains_key(k) {
                        fields_now.insert(k.clone(), serde_json::from_value(v.clone()).unwrap());
                    }
                }
            }
            if let Some(m) = old["bindings"].as_object() {
                for (k, v) in m {
                    if !binds.contains_key(k) {
                        binds.insert(k.clone(), serde_json::from_value(v.clone()).unwrap());
                    }
                }
            }
        }
        std::fs::write(
            format!("{}/baseline.json", specdir),
            serde_json::to_string_pretty(&serde_json::json!({"sigs": sigs, "bindings": binds, "fields": fields_now, "hashes": hashes})).unwrap(),
        )
        .unwrap();
    }
    let miss: Vec<_> = missing.iter().filter(|k| !renames.contains_key(*k)).collect();
    let mut dropped = cx.dropped.clone();
    dropped.sort();
    dropped.dedup();
    std::fs::write(
        metap,
        serde_json::to_string_pretty(&serde_json::json!({
            "functions": meta_fns, "files": files, "dropped": dropped, "notes": cx.notes, "std": std_note,
            "renamed_functions": renames, "missing_contracts": miss,
            "tables": cx.tables,
        }))
        .unwrap(),
    )
    .unwrap();
}

/// `//@if TYPE` .. `//@endif` and `//@template A x y; B z w` .. `//@endtemplate`
/// (instantiated once per existing type A with $T $1 $2 ...).
fn conditionals(t: &str, cx: &Ctx, has_fn: &dyn Fn(&str) -> bool) -> String {
    let has = |n: &str| cx.types.iter().any(|(k, _)| k == n) || cx.fn_consts.contains(n) || has_fn(n);
    let mut out = String::new();
    let mut skip = false;
    let mut tpl: Option<(Vec<Vec<String>>, String)> = None;
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("//@if ") {
            skip = match x.trim().strip_prefix('!') {
                Some(n) => has(n),
                None => !x.split_whitespace().all(|n| has(n)),
            };
        } else if l.starts_with("//@endif") {
            skip = false;
        } else if let Some(x) = l.strip_prefix("//@template ") {
            let v = x.split(';').map(|i| i.split_whitespace().map(|w| w.to_string()).collect()).collect();
            tpl = Some((v, String::new()));
        } else if l.starts_with("//@endtemplate") {
            let (insts, body) = tpl.take().unwrap();
            for i in insts {
                if !has(&i[0]) {
                    continue;
                }
                let mut b = body.clone();
                for k in (1..i.len()).rev() {
                    b = b.replace(&format!("${}", k), &i[k]);
                }
                out.push_str(&b.replace("$T", &i[0]));
            }
        } else if skip {
        } else if let Some((_, b)) = tpl.as_mut() {
            b.push_str(l);
            b.push('\n');
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

pub fn rename_word(t: &str, a: &str, b: &str) -> String {
    // identifiers equal to `a`
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[s..i].iter().collect();
            out.push_str(if w == a { b } else { &w });
        } else if cs[i].is_ascii_digit() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                out.push(cs[i]);
                i += 1;
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

pub fn sig_shape(s: &Signature) -> String {
    let mut s = s.clone();
    s.ident = Ident::new("f", s.ident.span());
    let mut n = 0;
    for i in s.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            let id = Ident::new(&format!("a{}", n), proc_macro2::Span::call_site());
            n += 1;
            *t.pat = parse_quote!(#id);
        } else if let FnArg::Receiver(r) = i {
            r.attrs.clear();
        }
    }
    let t: TokenStream = quote!(#s);
    t.to_string()
}

fn digest(f: &Fun) -> String {
    // FNV-1a over the token text
    let mut h: u64 = 0xcbf29ce484222325;
    for b in format!("{} {}", ts(&f.sig), ts(&f.block)).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn each_struct(items: &[Item], f: &mut dyn FnMut(&ItemStruct)) {
    for i in items {
        match i {
            Item::Struct(s) => f(s),
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    each_struct(its, f)
                }
            }
            _ => {}
        }
    }
}
fn named_fields(file: &File) -> BTreeMap<String, Vec<(String, String)>> {
    let mut out = BTreeMap::new();
    each_struct(&file.items, &mut |s| {
        let v = s
            .fields
            .iter()
            .enumerate()
            .map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), ts(&f.ty)))
            .collect();
        out.insert(s.ident.to_string(), v);
    });
    out
}

/// Private types and fields may be renamed without changing what the code
/// does: give them the names the contracts use, where the correspondence is
/// evident (same shape, one candidate, no clash).
fn normalise_names(file: &mut File, db: &Db, cx: &mut Ctx) {
    if db.fields.is_empty() {
        return;
    }
    struct Idents(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for Idents {
        fn visit_ident(&mut self, i: &'a Ident) {
            self.0.insert(i.to_string());
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            fn go(t: TokenStream, o: &mut BTreeSet<String>) {
                for x in t {
                    match x {
                        proc_macro2::TokenTree::Ident(i) => {
                            o.insert(i.to_string());
                        }
                        proc_macro2::TokenTree::Group(g) => go(g.stream(), o),
                        _ => {}
                    }
                }
            }
            go(m.tokens.clone(), &mut self.0);
        }
    }
    struct Ren {
        types: BTreeMap<String, String>,
        fields: BTreeMap<String, String>,
    }
    impl syn::visit_mut::VisitMut for Ren {
        fn visit_ident_mut(&mut self, i: &mut Ident) {
            if let Some(n) = self.types.get(&i.to_string()) {
                *i = Ident::new(n, i.span());
            }
        }
        fn visit_member_mut(&mut self, m: &mut Member) {
            if let Member::Named(i) = m {
                if let Some(n) = self.fields.get(&i.to_string()) {
                    *i = Ident::new(n, i.span());
                }
            }
        }
        fn visit_field_mut(&mut self, f: &mut Field) {
            syn::visit_mut::visit_field_mut(self, f);
            if let Some(i) = f.ident.as_mut() {
                if let Some(n) = self.fields.get(&i.to_string()) {
                    *i = Ident::new(n, i.span());
                }
            }
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            syn::visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            syn::visit_mut::visit_field_pat_mut(self, f);
        }
    }
    let now = named_fields(file);
    let mut r = Ren { types: BTreeMap::new(), fields: BTreeMap::new() };
    let mut ids = Idents(BTreeSet::new());
    syn::visit::Visit::visit_file(&mut ids, file);
    // types
    let gone: Vec<&String> = db.fields.keys().filter(|k| !now.contains_key(*k)).collect();
    let new: Vec<&String> = now.keys().filter(|k| !db.fields.contains_key(*k)).collect();
    let shape = |v: &Vec<(String, String)>| v.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
    for g in &gone {
        let by_name: Vec<&&String> = new.iter().filter(|n| now[**n] == db.fields[*g]).collect();
        let by_shape: Vec<&&String> = new.iter().filter(|n| shape(&now[**n]) == shape(&db.fields[*g])).collect();
        let c = if by_name.len() == 1 { by_name } else { by_shape };
        if c.len() == 1 && !ids.0.contains(*g) {
            r.types.insert(c[0].to_string(), g.to_string());
        }
    }
    if gone.len() == 1 && new.len() == 1 && r.types.is_empty() && !ids.0.contains(gone[0]) && now[new[0]].len() == db.fields[gone[0]].len() {
        r.types.insert(new[0].clone(), gone[0].clone());
    }
    // fields
    let mut all_now: BTreeMap<String, usize> = BTreeMap::new();
    for v in now.values() {
        for (n, _) in v {
            *all_now.entry(n.clone()).or_default() += 1;
        }
    }
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut owners: BTreeMap<String, usize> = BTreeMap::new();
    for (t, v) in &now {
        let t0 = r.types.get(t).unwrap_or(t);
        let Some(old) = db.fields.get(t0) else { continue };
        let mapped: Vec<(String, String)> = v
            .iter()
            .map(|(n, ty)| {
                let mut ty = ty.clone();
                for (a, b) in &r.types {
                    ty = rename_word(&ty, a, b);
                }
                (n.clone(), ty)
            })
            .collect();
        let oldn: BTreeSet<&String> = old.iter().map(|x| &x.0).collect();
        let nown: BTreeSet<&String> = mapped.iter().map(|x| &x.0).collect();
        let lost: Vec<&(String, String)> = old.iter().filter(|x| !nown.contains(&x.0)).collect();
        let fresh: Vec<&(String, String)> = mapped.iter().filter(|x| !oldn.contains(&x.0)).collect();
        for (k, l) in lost.iter().enumerate() {
            let c: Vec<&&(String, String)> = fresh.iter().filter(|f| f.1 == l.1).collect();
            let pick = if c.len() == 1 {
                Some(c[0].0.clone())
            } else if lost.len() == fresh.len() && fresh[k].1 == l.1 {
                Some(fresh[k].0.clone())
            } else {
                None
            };
            if let Some(g) = pick {
                want.entry(g.clone()).or_default().insert(l.0.clone());
                *owners.entry(g).or_default() += 1;
            }
        }
    }
    for (g, olds) in want {
        if olds.len() == 1 && all_now.get(&g) == owners.get(&g) {
            r.fields.insert(g, olds.into_iter().next().unwrap());
        }
    }
    if r.types.is_empty() && r.fields.is_empty() {
        return;
    }
    cx.notes.push(format!("renamed back for the contracts: types {:?}, fields {:?}", r.types, r.fields));
    syn::visit_mut::VisitMut::visit_file_mut(&mut r, file);
}

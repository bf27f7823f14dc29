//! The code the derive macros expand to (Serialize, Deserialize, Clone),
//! turned into a Verus file of its own.
//!
//! The contracts are generated from each struct's definition: what its
//! serialization has to write (every field, under the name the code gives
//! it), and that reading that back yields the same fields.
use crate::{rustfmt, splice, ts, Ctx};
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default)]
struct Derived {
    def: Option<ItemStruct>,
    ser: Option<ItemImpl>,
    de: Option<ItemImpl>,
    clone: Option<ItemImpl>,
}

fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last(&p.path),
        _ => String::new(),
    }
}

fn collect(items: &[Item], out: &mut BTreeMap<String, Derived>, order: &mut Vec<String>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    collect(its, out, order)
                }
            }
            Item::Struct(s) => {
                let n = s.ident.to_string();
                order.push(n.clone());
                out.entry(n).or_default().def = Some(s.clone());
            }
            Item::Impl(i) => {
                let Some((_, tr, _)) = &i.trait_ else { continue };
                let e = out.entry(self_name(&i.self_ty)).or_default();
                match last(tr).as_str() {
                    "Serialize" => e.ser = Some(i.clone()),
                    "Deserialize" => e.de = Some(i.clone()),
                    "Clone" => e.clone = Some(i.clone()),
                    _ => {}
                }
            }
            Item::Const(c) => {
                if let Expr::Block(b) = &*c.expr {
                    let its: Vec<Item> = b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                    collect(&its, out, order);
                }
            }
            _ => {}
        }
    }
}

/// The dialect.
struct Dialect<'a> {
    strs: &'a mut Vec<String>,
    prefix: String,
    /// where errors raised by the code itself get their type
    fields: Vec<u32>,
    bad: Vec<String>,
    in_err: String,
}
impl<'a> Dialect<'a> {
    fn num(&mut self, s: String) -> u32 {
        if let Some(i) = self.strs.iter().position(|x| *x == s) {
            return i as u32;
        }
        self.strs.push(s);
        self.strs.len() as u32 - 1
    }
    fn inner(&self, n: &str) -> bool {
        matches!(n, "__Field" | "__FieldVisitor" | "__Visitor")
    }
}
impl<'a> VisitMut for Dialect<'a> {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Lifetime(l) if l.lifetime.ident == "de")).cloned().collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = w.predicates.iter().filter(|p| !ts(p).trim().ends_with(":: Error")).cloned().collect();
        }
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(l) if l.ident == "de")).cloned().collect();
                if a.args.is_empty() {
                    s.arguments = PathArguments::None;
                }
            }
            if self.inner(&s.ident.to_string()) {
                s.ident = format_ident!("{}{}", self.prefix, s.ident);
            }
        }
        visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.segments.len() > 1 && (first == "_serde" || first == "core" || first == "std" || first == "serde" || first == "alloc" || first == "crate") {
            let keep = p.segments.iter().cloned().collect::<Vec<_>>();
            let l = keep.len();
            p.leading_colon = None;
            p.segments = std::iter::once(keep[l - 1].clone()).collect();
            if l > 1 && matches!(keep[l - 2].ident.to_string().as_str(), "Option") {
                p.segments = keep[l - 2..].iter().cloned().collect();
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(q) = &mut p.qself {
            self.visit_type_mut(&mut q.ty);
            if q.position > 0 {
                let segs: Vec<PathSegment> = p.path.segments.iter().skip(q.position - 1).cloned().collect();
                q.position = 1;
                p.path.leading_colon = None;
                p.path.segments = segs.into_iter().collect();
                if let PathArguments::AngleBracketed(_) = p.path.segments[0].arguments {
                    p.path.segments[0].arguments = PathArguments::None;
                }
            }
            return;
        }
        self.visit_path_mut(&mut p.path);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            let x = ts(&r.elem);
            if x == "str" || x == "[u8]" || x == "[u8 ;]" || x.replace(' ', "") == "[u8]" {
                *t = parse_quote!(u32);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Lit(l) = p {
            match &l.lit {
                Lit::Str(s) => {
                    let n = self.num(s.value());
                    l.lit = parse_quote!(#n);
                }
                Lit::ByteStr(s) => {
                    let n = self.num(String::from_utf8_lossy(&s.value()).to_string());
                    l.lit = parse_quote!(#n);
                }
                _ => {}
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // errors raised by the code itself
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let l = last(&p.path);
                if matches!(l.as_str(), "invalid_length" | "duplicate_field" | "unknown_field" | "custom" | "invalid_value") {
                    *e = parse_quote!(v_error());
                    return;
                }
                if l == "missing_field" {
                    let t: Type = parse_str(&self.in_err).unwrap();
                    *e = parse_quote!(v_missing::<_, #t>());
                    return;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let owner = if segs.len() > 1 { segs[segs.len() - 2].as_str() } else { "" };
                if l == "default" && owner == "Default" {
                    *e = parse_quote!(v_default());
                    return;
                }
                if l == "clone" && owner == "Clone" && c.args.len() == 1 {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = match a {
                        Expr::Reference(r) => {
                            let x = &r.expr;
                            parse_quote!(#x.v_clone())
                        }
                        a => parse_quote!((#a).v_clone()),
                    };
                    return;
                }
                if owner == "Option" && c.args.len() == 1 && (l == "is_some" || l == "is_none") {
                    if let Expr::Reference(r) = &c.args[0] {
                        let (x, m) = (&r.expr, format_ident!("{}", l));
                        *e = parse_quote!(#x.#m());
                        return self.visit_expr_mut(e);
                    }
                }
                if matches!(owner, "Serializer" | "SerializeStruct" | "Deserializer" | "SeqAccess" | "MapAccess") {
                    let f = format_ident!("v_{}", l);
                    let targs = match &p.path.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect::<Vec<_>>(),
                        _ => vec![],
                    };
                    let args = &c.args;
                    let mut n: ExprCall = if targs.is_empty() { parse_quote!(#f(#args)) } else { parse_quote!(#f::<#(#targs),*, _>(#args)) };
                    for a in n.args.iter_mut() {
                        if ts(a) == "FIELDS" {
                            let fs = &self.fields;
                            *a = parse_quote!(&[#(#fs),*]);
                        } else {
                            self.visit_expr_mut(a);
                        }
                    }
                    self.visit_expr_mut(&mut n.func);
                    *e = Expr::Call(n);
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "clone" && m.args.is_empty() {
                m.method = format_ident!("v_clone");
            }
        }
        if let Expr::Cast(c) = e {
            if ts(&c.expr) == "false" {
                *e = parse_quote!(0usize);
                return;
            }
            if ts(&c.expr) == "true" {
                *e = parse_quote!(1usize);
                return;
            }
        }
        if let Expr::Struct(s) = e {
            if self.inner(&last(&s.path)) {
                s.fields = s.fields.iter().filter(|f| ts(&f.member) != "lifetime").cloned().collect();
            }
        }
        if let Expr::Lit(l) = e {
            match &l.lit {
                Lit::Str(s) => {
                    let n = self.num(s.value());
                    *e = parse_quote!(#n);
                    return;
                }
                Lit::ByteStr(s) => {
                    let n = self.num(String::from_utf8_lossy(&s.value()).to_string());
                    *e = parse_quote!(#n);
                    return;
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(__ok) => __ok, Err(__er) => return Err(__er) });
        }
    }
}

struct HasLoops(bool);
impl<'a> Visit<'a> for HasLoops {
    fn visit_expr(&mut self, e: &'a Expr) {
        self.0 |= matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Closure(_));
        visit::visit_expr(self, e);
    }
}

/// The names `serialize` gives the fields: (name, field), in order.
struct Keys(Vec<(String, String)>);
impl<'a> Visit<'a> for Keys {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if last(&p.path) == "serialize_field" && c.args.len() == 3 {
                if let (Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), Expr::Reference(r)) = (&c.args[1], &c.args[2]) {
                    if let Expr::Field(f) = &*r.expr {
                        if ts(&f.base) == "self" {
                            self.0.push((s.value(), ts(&f.member)));
                        }
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
}
/// Which local `visit_map` gives each field: field -> __fieldN
struct Ctor<'b>(&'b str, Vec<(String, String)>);
impl<'a, 'b> Visit<'a> for Ctor<'b> {
    fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
        if last(&s.path) == self.0 {
            for f in &s.fields {
                self.1.push((ts(&f.member), ts(&f.expr)));
            }
        }
        visit::visit_expr_struct(self, s);
    }
}
struct Strs(Vec<String>);
impl<'a> Visit<'a> for Strs {
    fn visit_lit_str(&mut self, s: &'a LitStr) {
        self.0.push(s.value());
    }
}

/// Loops: `while let Some(p) = CALL {..}` over the fields of a map
struct Loops<'a> {
    cx: &'a mut Ctx,
    inv: String,
    n: usize,
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (pat, call, body) = (&l.pat, &l.expr, &w.body);
                let hdr = self.cx.mark(&format!("^{}", self.inv));
                let a = self.cx.mark("let ghost __o = __map.order();");
                let b = self.cx.mark(&format!("proof {{ if __o.len() > 0 {{ lemma_pop(__o, {}); }} }}", self.n));
                *e = parse_quote!(loop {
                    #hdr
                    #a
                    let __nk = #call;
                    #b
                    match __nk { #pat => #body, _ => { break; } }
                });
            }
        }
    }
}

/// Rust text around specification text: `spec` goes first in the impl
fn impl_text(cx: &mut Ctx, head: &str, spec: &str, body: &str) -> String {
    let m = cx.mark(spec);
    splice(&rustfmt(&format!("{} {{ {} {} }}", head, ts(&m), body)), &cx.markers)
}

pub fn main(what: &str, exp: &str, specdir: &str, outp: &str, metap: &str) {
    let serde = what == "serde";
    let file = syn::parse_file(&std::fs::read_to_string(exp).unwrap()).unwrap_or_else(|e| {
        eprintln!("cannot parse expanded source: {}", e);
        std::process::exit(3)
    });
    let (mut all, mut order) = (BTreeMap::new(), vec![]);
    collect(&file.items, &mut all, &mut order);
    let mut out = std::fs::read_to_string(format!("{}/derive/header.rs", specdir)).unwrap();
    let mut strs: Vec<String> = vec!["".into()];
    let mut cx = Ctx::default();
    let mut meta = vec![];
    let mut bad: Vec<String> = vec![];
    let (mut used, mut todo): (BTreeSet<String>, Vec<String>) = (BTreeSet::new(), vec![]);
    let known: serde_json::Value = std::fs::read_to_string(format!("{}/baseline.json", specdir)).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    // only what is serialized or cloned
    for n in &order {
        let d = &all[n];
        if d.def.is_some() && (if serde { d.ser.is_some() || d.de.is_some() } else { d.clone.is_some() }) && used.insert(n.clone()) {
            todo.push(n.clone());
        }
    }
    let unsure: std::cell::RefCell<Option<String>> = Default::default();
    let mut emit = |out: &mut String, key: String, text: String| {
        let start = out.matches('\n').count() + 1;
        out.push_str(&text);
        out.push('\n');
        let kind = if key.ends_with("(definition)") || key.ends_with("(same)") || key.ends_with("(names)") { "spec" } else { "proved" };
        meta.push(serde_json::json!({"key": key, "kind": kind, "unsure": *unsure.borrow(), "lines": [start, out.matches('\n').count()]}));
    };
    for n in &todo {
        let d = &all[n];
        let mut def = d.def.clone().unwrap();
        def.attrs.clear();
        def.vis = parse_quote!(pub);
        for f in def.fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
        let mut dia = Dialect { strs: &mut strs, prefix: format!("{}", n), fields: vec![], bad: vec![], in_err: String::new() };
        dia.visit_item_struct_mut(&mut def);
        emit(&mut out, format!("{} (definition)", n), rustfmt(&ts(&def)));
        let named = matches!(def.fields, Fields::Named(_));
        let fields: Vec<(String, String)> = def.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), ts(&f.ty))).collect();
        let tparams: Vec<String> = def.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
        // where clauses of the struct, plus a bound on the parameters that
        // are the type of a field
        let wh: Vec<String> = def.generics.where_clause.as_ref().map(|w| w.predicates.iter().map(|p| ts(p)).collect()).unwrap_or_default();
        let params: Vec<String> = def.generics.params.iter().map(|p| ts(p)).collect();
        let stored: Vec<&String> = tparams.iter().filter(|p| fields.iter().any(|f| f.1 == **p)).collect();
        let head = |tr: &str, ty: &str, bound: &str| {
            let mut w = wh.clone();
            for p in &stored {
                if !bound.is_empty() {
                    w.push(format!("{} : {}", p, bound));
                }
            }
            let g = if params.is_empty() { String::new() } else { format!("< {} >", params.join(", ")) };
            let a = if tparams.is_empty() { String::new() } else { format!("< {} >", tparams.join(", ")) };
            format!("impl {} {} for {} {} {}", g, tr, ty, a, if w.is_empty() { String::new() } else { format!("where {}", w.join(", ")) })
        };
        let ty = if tparams.is_empty() { n.clone() } else { format!("{} < {} >", n, tparams.join(", ")) };
        // ---- the relation: the same contents
        let rel: Vec<String> = fields.iter().map(|(f, _)| format!("self.{}.same(&o.{})", f, f)).collect();
        let conj = |v: &Vec<String>| if v.is_empty() { "true".to_string() } else { v.join(" && ") };
        emit(&mut out, format!("{} (same)", n), format!("{} {{ open spec fn same(&self, o: &Self) -> bool {{ {} }} }}", head("Same", n, "Same"), conj(&rel)));
        // fields the contracts were not written for
        let old: Option<BTreeSet<String>> = known["fields"][n.as_str()].as_array().map(|a| a.iter().map(|x| x[1].as_str().unwrap_or("").replace(' ', "")).collect());
        let odd = match &old {
            Some(o) => fields.iter().any(|f| !o.contains(&f.1.replace(' ', ""))) || known["fields"][n.as_str()].as_array().unwrap().len() != fields.len(),
            None => named,
        };
        let derived = |i: &ItemImpl| i.attrs.iter().any(|a| last(a.path()) == "automatically_derived");
        let mut why = vec![];
        if odd {
            why.push("the struct has other fields");
        }
        // ---- Clone
        if let Some(c) = d.clone.as_ref().filter(|_| !serde) {
            let mut w = why.clone();
            let mut l = HasLoops(false);
            l.visit_item_impl(c);
            if !derived(c) && l.0 {
                w.push("written by hand, with loops or closures");
            }
            if c.items.iter().filter(|i| matches!(i, ImplItem::Fn(_))).count() != 1 {
                bad.push(format!("{}: clone_from", n));
            }
            *unsure.borrow_mut() = if w.is_empty() { None } else { Some(w.join(", ")) };
            let f = c.items.iter().find_map(|i| if let ImplItem::Fn(f) = i { if f.sig.ident == "clone" { Some(f.clone()) } else { None } } else { None });
            if let Some(mut f) = f {
                dia.visit_block_mut(&mut f.block);
                let b = &f.block;
                emit(&mut out, format!("{}::clone", n), rustfmt(&format!("{} {{ fn v_clone(&self) -> Self {} }}", head("VClone", n, "VClone"), ts(b))));
            }
        }
        if !serde {
            continue;
        }
        let (Some(ser), Some(de)) = (&d.ser, &d.de) else {
            if d.ser.is_some() != d.de.is_some() {
                bad.push(format!("{}: only one of Serialize and Deserialize", n));
            }
            continue;
        };
        if !derived(ser) || !derived(de) {
            why.push("written by hand");
        }
        *unsure.borrow_mut() = if why.is_empty() { None } else { Some(why.join(", ")) };
        // ---- Serialize
        let sf = ser.items.iter().find_map(|i| if let ImplItem::Fn(f) = i { Some(f.clone()) } else { None });
        let Some(mut sf) = sf else { continue };
        let name = dia.num(n.clone());
        let mut keys = Keys(vec![]);
        keys.visit_block(&sf.block);
        // the type's own name on the wire, if renamed
        let wire = {
            let mut s = Strs(vec![]);
            s.visit_block(&sf.block);
            s.0.first().cloned().unwrap_or(n.clone())
        };
        let name = if wire != *n { dia.num(wire) } else { name };
        let newtype = !named && fields.len() == 1;
        if !named && !newtype {
            bad.push(format!("{}: not a struct with named fields", n));
            continue;
        }
        // position -> (key, field, type); fields not written come last
        let mut pos: Vec<(u32, String, String)> = vec![];
        for (k, f) in &keys.0 {
            if let Some(x) = fields.iter().find(|x| x.0 == *f) {
                if !pos.iter().any(|p| p.1 == *f) {
                    pos.push((dia.num(k.clone()), f.clone(), x.1.clone()));
                }
            }
        }
        for (f, t) in &fields {
            if !pos.iter().any(|p| p.1 == *f) {
                pos.push((dia.num(f.clone()), f.clone(), t.clone()));
            }
        }
        let tree = if newtype {
            format!("Tree::Newtype({}u32, Box::new(self.0.tree()))", name)
        } else {
            format!("Tree::Struct({}u32, seq![{}])", name, pos.iter().map(|p| format!("({}u32, self.{}.tree())", p.0, p.1)).collect::<Vec<_>>().join(", "))
        };
        dia.in_err = "__S::Error".into();
        dia.visit_block_mut(&mut sf.block);
        let sbody = ts(&sf.block);
        let sbody = with_end_hint(&sbody, &pos, &mut cx, newtype);
        let t = impl_text(&mut cx, &head("Serialize", n, "Serialize"), &format!("open spec fn tree(&self) -> Tree {{ {} }}", tree),
            &format!("fn serialize<__S: Serializer>(&self, __serializer: __S) -> Result<__S::Ok, __S::Error> {}", sbody));
        emit(&mut out, format!("{}::serialize", n), t);
        // ---- Deserialize
        let df = de.items.iter().find_map(|i| if let ImplItem::Fn(f) = i { Some(f.clone()) } else { None });
        let Some(df) = df else { continue };
        let mut tail = df.block.clone();
        let mut inner: Vec<Item> = vec![];
        tail.stmts.retain(|s| {
            if let Stmt::Item(i) = s {
                inner.push(i.clone());
                false
            } else {
                true
            }
        });
        let mut fieldvars: Vec<(String, String)> = vec![]; // field -> __fieldN
        for i in &inner {
            if let Item::Impl(im) = i {
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == "visit_map" {
                            let mut c = Ctor(n, vec![]);
                            c.visit_block(&f.block);
                            fieldvars = c.1;
                        }
                    }
                }
            }
        }
        let var_of = |f: &str| fieldvars.iter().find(|x| x.0 == f).map(|x| x.1.clone()).filter(|v| v.starts_with("__field"));
        for i in &inner {
            if let Item::Const(c) = i {
                if c.ident == "FIELDS" {
                    let mut s = Strs(vec![]);
                    s.visit_expr(&c.expr);
                    let l = s.0.clone();
                    dia.fields = l.into_iter().map(|x| dia.num(x)).collect();
                }
            }
        }
        let reads: Vec<String>;
        let is: Vec<String>;
        if newtype {
            let t = &fields[0].1;
            reads = vec!["t is Newtype".into(), format!("t->Newtype_0 == {}u32", name), format!("<{}>::reads(*t->Newtype_1)", t)];
            is = vec![format!("<{}>::is(*t->Newtype_1, v.0)", t)];
        } else {
            let mut r = vec!["t is Struct".into(), format!("t->Struct_0 == {}u32", name), format!("t->Struct_1.len() == {}", pos.len())];
            let mut s = vec![];
            for (i, p) in pos.iter().enumerate() {
                r.push(format!("t->Struct_1[{}].0 == {}u32", i, p.0));
                r.push(format!("<{}>::reads(t->Struct_1[{}].1)", p.2, i));
                s.push(format!("<{}>::is(t->Struct_1[{}].1, v.{})", p.2, i, p.1));
            }
            reads = r;
            is = s;
        }
        for i in inner {
            match i {
                Item::Enum(mut e) => {
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    let vs: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
                    let en = format!("{}{}", n, e.ident);
                    e.ident = format_ident!("{}", en);
                    dia.visit_item_enum_mut(&mut e);
                    emit(&mut out, format!("{} (definition)", en), rustfmt(&ts(&e)));
                    // the field a name stands for
                    let mut by = String::new();
                    for p in &pos {
                        let v = var_of(&p.1).filter(|v| vs.contains(v)).unwrap_or("__ignore".into());
                        by.push_str(&format!("if k == {}u32 {{ {}::{} }} else ", p.0, en, v));
                    }
                    let names: Vec<String> = std::iter::once(format!("f.len() == {}", pos.len())).chain(pos.iter().enumerate().map(|(i, p)| format!("f[{}].0 == {}u32", i, p.0))).collect();
                    emit(&mut out, format!("{} (names)", n), format!(
                        "pub open spec fn {en}_of(k: u32) -> {en} {{ {by} {{ {en}::__ignore }} }} pub open spec fn {en}_is(t: Tree, v: {en}) -> bool {{ match t {{ Tree::Name(k) => v == {en}_of(k), Tree::Index(i, f) => {} ==> v == {en}_of(f[i as int].0), _ => true }} }}", names.join(" && ")));
                }
                Item::Struct(mut s) => {
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    if !dia.inner(&s.ident.to_string()) {
                        bad.push(format!("{}: {} inside deserialize", n, s.ident));
                    }
                    s.ident = format_ident!("{}{}", n, s.ident);
                    if let Fields::Named(f) = &mut s.fields {
                        f.named = f.named.iter().filter(|f| f.ident.as_ref().unwrap() != "lifetime").cloned().collect();
                        for f in f.named.iter_mut() {
                            f.vis = parse_quote!(pub);
                        }
                    }
                    dia.visit_item_struct_mut(&mut s);
                    emit(&mut out, format!("{} (definition)", s.ident), rustfmt(&ts(&s)));
                }
                Item::Impl(im) => {
                    let tr = im.trait_.as_ref().map(|x| last(&x.1)).unwrap_or_default();
                    let who = self_name(&im.self_ty);
                    let wname = format!("{}{}", n, who);
                    let fns: Vec<ImplItemFn> = im.items.iter().filter_map(|i| if let ImplItem::Fn(f) = i { Some(f.clone()) } else { None }).filter(|f| f.sig.ident != "expecting").collect();
                    let mut val: Option<Type> = im.items.iter().find_map(|i| if let ImplItem::Type(t) = i { Some(t.ty.clone()) } else { None });
                    if let Some(v) = val.as_mut() {
                        dia.visit_type_mut(v);
                    }
                    let val = val.map(|v| ts(&v)).unwrap_or_default();
                    let mut body = String::new();
                    let (role, spec, bound, known): (&str, String, &str, &[&str]);
                    if tr == "Visitor" && who == "__FieldVisitor" {
                        role = "FieldVisitor";
                        spec = format!("type Value = {val}; open spec fn built(self, t: Tree, v: Self::Value) -> bool {{ {n}__Field_is(t, v) }}");
                        bound = "-";
                        known = &["visit_u64", "visit_str", "visit_bytes"];
                    } else if tr == "Visitor" && who == "__Visitor" {
                        role = if newtype { "NewtypeVisitor" } else { "StructVisitor" };
                        spec = format!("type Value = {val}; open spec fn accepts(self, t: Tree) -> bool {{ {val}::reads(t) }} open spec fn built(self, t: Tree, v: Self::Value) -> bool {{ {val}::is(t, v) }}").replace(&format!("{val}::"), &format!("<{val}>::"));
                        bound = "Deserialize";
                        known = if newtype { &["visit_newtype_struct", "visit_seq"] } else { &["visit_seq", "visit_map"] };
                    } else if tr == "Deserialize" && who == "__Field" {
                        role = "Deserialize";
                        spec = format!("open spec fn reads(t: Tree) -> bool {{ t is Name || t is Index && t->Index_0 < t->Index_1.len() }} open spec fn is(t: Tree, v: Self) -> bool {{ {n}__Field_is(t, v) }}");
                        bound = "-";
                        known = &["deserialize"];
                    } else {
                        bad.push(format!("{}: impl {} for {} inside deserialize", n, tr, who));
                        continue;
                    }
                    for k in known {
                        if !fns.iter().any(|f| f.sig.ident == *k) {
                            bad.push(format!("{}: no {}", wname, k));
                        }
                    }
                    for mut f in fns {
                        let fname = f.sig.ident.to_string();
                        if !known.contains(&fname.as_str()) {
                            bad.push(format!("{}::{} is not covered", wname, fname));
                            continue;
                        }
                        f.attrs.clear();
                        let gp = f.sig.generics.params.iter().find_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).unwrap_or_default();
                        dia.in_err = format!("{}::Error", gp);
                        dia.visit_signature_mut(&mut f.sig);
                        dia.visit_block_mut(&mut f.block);
                        if fname == "visit_map" {
                            let mut inv = vec!["__map.tree() == __t".to_string(), "__t is Struct".into(), format!("<{val}>::reads(__t)"), "__map.value() is None".into(), format!("distinct(__map.order(), {})", pos.len())];
                            let mut aft = vec![];
                            for (i, p) in pos.iter().enumerate() {
                                if let Some(v) = var_of(&p.1) {
                                    inv.push(format!("{v} is Some != __map.order().contains({i})"));
                                    inv.push(format!("{v} is Some ==> <{}>::is(fields_of(__t)[{i}].1, {v}->Some_0)", p.2));
                                    aft.push(format!("assert(!__map.order().contains({i}));"));
                                }
                            }
                            let inv = format!("\n    invariant {},\n    ensures __map.order().len() == 0,\n    decreases __map.order().len()\n", inv.join(",\n        "));
                            let mut l = Loops { cx: &mut cx, inv, n: pos.len() };
                            l.visit_block_mut(&mut f.block);
                            let i = f.block.stmts.iter().position(|s| matches!(s, Stmt::Expr(Expr::Loop(_), _)));
                            if let Some(i) = i {
                                let m = cx.mark(&format!("proof {{ {} }}", aft.join(" ")));
                                f.block.stmts.insert(i + 1, m);
                            }
                            let m = cx.mark("let ghost __t = __map.tree(); proof { lemma_each(__map.order(), fields_of(__t).len() as int); }");
                            f.block.stmts.insert(0, m);
                        }
                        if fname == "visit_seq" {
                            let m = cx.mark(&if newtype { "".to_string() } else { format!("proof {{ let __f = fields_of(__seq.tree()); assert(__seq.rest().len() == __f.len()); {} }}", (0..pos.len()).map(|i| format!("assert(__seq.rest()[{i}] == __f[{i}].1);")).collect::<Vec<_>>().join(" ")) });
                            f.block.stmts.insert(0, m);
                        }
                        body.push_str(&ts(&f));
                    }
                    let h = if bound == "-" { format!("impl {} for {}", role, wname) } else { head(role, &wname, bound) };
                    emit(&mut out, format!("{} ({})", wname, role), impl_text(&mut cx, &h, &spec, &body));
                }
                Item::Const(c) if c.ident == "FIELDS" => {}
                x => bad.push(format!("{}: {} inside deserialize", n, ts(&x).chars().take(60).collect::<String>())),
            }
        }
        dia.in_err = "__D::Error".into();
        dia.visit_block_mut(&mut tail);
        let t = impl_text(&mut cx, &head("Deserialize", n, "Deserialize"),
            &format!("open spec fn reads(t: Tree) -> bool {{ {} }} open spec fn is(t: Tree, v: Self) -> bool {{ {} }}", conj(&reads), conj(&is)),
            &format!("fn deserialize<__D: Deserializer>(__deserializer: __D) -> Result<Self, __D::Error> {}", ts(&tail)));
        emit(&mut out, format!("{}::deserialize", n), t);
        // ---- the property
        let rts: Vec<String> = fields.iter().map(|(f, _)| format!("self.{f}.round_trip(&y.{f});")).collect();
        emit(&mut out, format!("{} (round trip)", n), format!("{} {{ proof fn round_trip(&self, y: &Self) {{ {} }} }}", head("RoundTrip", n, "RoundTrip"), rts.join(" ")));
        let _ = &ty;
        bad.extend(dia.bad.drain(..).map(|b| format!("{}: {}", n, b)));
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(outp, &out).unwrap();
    let _ = quote!();
    std::fs::write(metap, serde_json::to_string_pretty(&serde_json::json!({"functions": meta, "unsupported": bad, "strings": strs})).unwrap()).unwrap();
}

/// nothing to add for now: the sequence of fields is compared by extension
fn with_end_hint(body: &str, pos: &[(u32, String, String)], cx: &mut Ctx, newtype: bool) -> String {
    if newtype {
        return body.to_string();
    }
    let Ok(mut b) = parse_str::<Block>(body) else { return body.to_string() };
    let l = b.stmts.len();
    if l > 0 {
        if let Stmt::Expr(Expr::Call(_), None) = &b.stmts[l - 1] {
            let m = cx.mark(&format!("proof {{ assert(__serde_state.done() =~= seq![{}]); }}", pos.iter().map(|p| format!("({}u32, self.{}.tree())", p.0, p.1)).collect::<Vec<_>>().join(", ")));
            b.stmts.insert(l - 1, m);
        }
    }
    ts(&b)
}

//! Source-to-source rewriting of one function into Verus' subset.
use crate::db::*;
use crate::*;
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// iterator-ish std methods replaced by the `v_` stand-ins of header.rs
const VMETHODS: &[&str] = &[
    "iter", "next", "map", "flatten", "take", "enumerate", "copied", "cloned", "collect", "sum",
    "into_iter", "sort", "sort_unstable", "binary_search_by", "zip", "chain", "filter", "skip", "rev",
    "flat_map", "for_each", "fold", "peekable", "peek", "extend", "nth", "max", "partial_cmp", "total_cmp",
    "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "dedup", "retain", "drain",
    "last", "windows", "chunks", "find", "any", "all", "position", "take_while", "skip_while", "step_by",
    "min", "div_ceil", "binary_search", "binary_search_by_key", "partition_point", "to_vec", "min_by", "max_by", "filter_map", "inspect",
];

// ------------------------------------------------------------------ types
pub struct TypeMap;
impl VisitMut for TypeMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for x in &a.args {
                                if let GenericArgument::AssocType(at) = x {
                                    let mut ty = at.ty.clone();
                                    self.visit_type_mut(&mut ty);
                                    *t = parse_quote!(SeqIter<#ty>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.segments[0].ident == "f64" {
            p.segments[0].ident = id("F64");
        }
        visit_mut::visit_path_mut(self, p);
    }
}

pub struct AssocMap<'a> {
    pub assoc: &'a HashMap<String, Type>,
}
impl<'a> VisitMut for AssocMap<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.assoc.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

// ------------------------------------------------------------------ inlining
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_return_block(b: &Block) -> bool {
    let mut v = HasReturn(false);
    v.visit_block(b);
    v.0
}

fn ends_in_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

/// Turns early returns in tail position into if/else expressions.
fn elim_returns(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        let last = i + 1 == n;
        match s {
            Stmt::Expr(Expr::Return(r), _) if last => {
                if let Some(e) = &r.expr {
                    out.push(Stmt::Expr((**e).clone(), None));
                }
            }
            Stmt::Expr(Expr::If(f), _)
                if !last && f.else_branch.is_none() && ends_in_return(&f.then_branch) =>
            {
                let then = elim_returns(&f.then_branch)?;
                let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let rest = elim_returns(&rest)?;
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #then else #rest), None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(e, semi) if last => out.push(Stmt::Expr(elim_expr(e)?, *semi)),
            Stmt::Expr(Expr::If(f), _) if has_return_expr(&Expr::If(f.clone())) => {
                // a return further inside: what follows goes into both branches
                let rest = &b.stmts[i + 1..];
                let e = push_rest(&Expr::If(f.clone()), rest)?;
                out.push(Stmt::Expr(elim_expr(&e)?, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            s => {
                let mut v = HasReturn(false);
                v.visit_stmt(s);
                if v.0 {
                    return None;
                }
                out.push(s.clone());
            }
        }
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}
fn has_return_in_closure(e: &Expr) -> bool {
    matches!(e, Expr::Closure(c) if has_return_expr(&c.body))
}
fn has_return_expr(e: &Expr) -> bool {
    let mut v = HasReturn(false);
    v.visit_expr(e);
    v.0
}
/// if c { a } else { b } rest  as  if c { a rest } else { b rest }, where no name of a or b hides one of the rest
fn push_rest(e: &Expr, rest: &[Stmt]) -> Option<Expr> {
    let branch = |b: &Block| -> Option<Block> {
        if ends_in_return(b) {
            return Some(b.clone());
        }
        let mut n = Binds(vec![]);
        let mut stmts = b.stmts.clone();
        for s in &stmts {
            if let Stmt::Local(l) = s {
                n.visit_pat(&l.pat);
            }
        }
        struct Uses(BTreeSet<String>);
        impl<'a> Visit<'a> for Uses {
            fn visit_ident(&mut self, i: &'a Ident) {
                self.0.insert(i.to_string());
            }
        }
        let mut u = Uses(BTreeSet::new());
        for s in rest {
            u.visit_stmt(s);
        }
        if n.0.iter().any(|x| u.0.contains(x)) {
            return None;
        }
        if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() {
            *semi = Some(Default::default());
        }
        stmts.extend(rest.iter().cloned());
        Some(Block { brace_token: Default::default(), stmts })
    };
    match e {
        Expr::If(f) => {
            if let Expr::Let(l) = &*f.cond {
                let mut n = Binds(vec![]);
                n.visit_pat(&l.pat);
                if !n.0.is_empty() {
                    return None;
                }
            }
            let c = &f.cond;
            let t = branch(&f.then_branch)?;
            let x: Expr = match &f.else_branch {
                None => parse_quote!({ #(#rest)* }),
                Some((_, x)) => match &**x {
                    Expr::If(_) => push_rest(x, rest)?,
                    Expr::Block(b) => {
                        let b = branch(&b.block)?;
                        parse_quote!(#b)
                    }
                    _ => return None,
                },
            };
            Some(parse_quote!(if #c #t else #x))
        }
        _ => None,
    }
}
fn elim_expr(e: &Expr) -> Option<Expr> {
    let mut v = HasReturn(false);
    v.visit_expr(e);
    if !v.0 {
        return Some(e.clone());
    }
    Some(match e {
        Expr::Return(r) => match &r.expr {
            Some(x) => (**x).clone(),
            None => parse_quote!(()),
        },
        Expr::Block(b) => {
            let nb = elim_returns(&b.block)?;
            parse_quote!(#nb)
        }
        Expr::If(f) => {
            let c = &f.cond;
            let t = elim_returns(&f.then_branch)?;
            match &f.else_branch {
                Some((_, x)) => {
                    let x = elim_expr(x)?;
                    parse_quote!(if #c #t else #x)
                }
                None => parse_quote!(if #c #t),
            }
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = elim_expr(&a.body)?;
            }
            Expr::Match(m)
        }
        _ => return None,
    })
}

struct SubstSelf<'a> {
    recv: &'a Expr,
    ty: &'a str,
}
impl<'a> VisitMut for SubstSelf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.recv.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "Self" && !self.ty.is_empty() {
            p.segments[0].ident = id(self.ty);
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// std method names that local methods may share: never resolved by name alone
const STD_NAMES: [&str; 22] = [
    "insert", "len", "push", "iter", "clone", "next", "into_iter", "clear", "count", "get", "extend", "is_empty",
    "map", "take", "contains", "remove", "last", "first", "pop", "sort", "min", "max",
];

/// the name of the local type an expression has, where it is evident
fn recv_type(e: &Expr, self_ty: &str, fields: &BTreeMap<(String, String), String>, params: &BTreeMap<String, String>) -> Option<String> {
    match e {
        Expr::Path(p) => {
            let i = p.path.get_ident()?.to_string();
            if i == "self" {
                Some(self_ty.to_string())
            } else {
                params.get(&i).cloned()
            }
        }
        Expr::Field(f) => {
            let t = recv_type(&f.base, self_ty, fields, params)?;
            if let Member::Named(n) = &f.member {
                fields.get(&(t, n.to_string())).cloned()
            } else {
                None
            }
        }
        Expr::Reference(r) => recv_type(&r.expr, self_ty, fields, params),
        Expr::Paren(r) => recv_type(&r.expr, self_ty, fields, params),
        _ => None,
    }
}
fn last_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        Type::Reference(r) => last_name(&r.elem),
        _ => None,
    }
}

struct Inliner<'a> {
    all: BTreeMap<String, usize>,
    fields: &'a BTreeMap<(String, String), String>,
    params: BTreeMap<String, String>,
    funs: &'a [Fun],
    by_name: BTreeMap<String, Vec<usize>>,
    depth: usize,
    self_ty: String,
    inlined: Vec<String>,
}

impl<'a> Inliner<'a> {
    fn pick_method(&self, recv: &Expr, name: &str) -> Option<usize> {
        match recv_type(recv, &self.self_ty, self.fields, &self.params) {
            Some(t) => {
                let c = self.by_name.get(name)?;
                let c: Vec<usize> = c.iter().cloned().filter(|&i| self.funs[i].self_ty == t).collect();
                if c.len() == 1 { Some(c[0]) } else { None }
            }
            None => {
                if STD_NAMES.contains(&name) || self.all.get(name).cloned().unwrap_or(0) != 1 {
                    return None;
                }
                self.pick(name, None, true)
            }
        }
    }
    fn pick(&self, name: &str, ty: Option<&str>, method: bool) -> Option<usize> {
        let c = self.by_name.get(name)?;
        let c: Vec<usize> = c
            .iter()
            .cloned()
            .filter(|&i| {
                let f = &self.funs[i];
                let has_self = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
                match ty {
                    Some(t) => f.self_ty == t || (t.is_empty() && f.self_ty.is_empty()),
                    None => !method || has_self,
                }
            })
            .collect();
        if c.len() == 1 {
            return Some(c[0]);
        }
        // several candidates: prefer the caller's own type
        let own: Vec<usize> = c.iter().cloned().filter(|&i| self.funs[i].self_ty == self.self_ty).collect();
        if own.len() == 1 {
            Some(own[0])
        } else {
            None
        }
    }

    fn expand(&mut self, i: usize, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let f = &self.funs[i];
        let mut body = if has_return_block(&f.block) { elim_returns(&f.block)? } else { f.block.clone() };
        if has_return_block(&body) {
            return None;
        }
        let mut params = vec![];
        for p in f.sig.inputs.iter() {
            if let FnArg::Typed(t) = p {
                params.push(t.clone());
            }
        }
        let mut args = args;
        let recv = match (recv, f.sig.inputs.first()) {
            (Some(r), _) => Some(r),
            (None, Some(FnArg::Receiver(_))) => {
                if args.is_empty() {
                    return None;
                }
                Some(args.remove(0))
            }
            _ => None,
        };
        if params.len() != args.len() {
            return None;
        }
        let ty = if f.self_ty == self.self_ty { "" } else { f.self_ty.as_str() };
        let sub: Expr = recv.clone().unwrap_or(parse_quote!(self));
        SubstSelf { recv: &sub, ty }.visit_block_mut(&mut body);
        let has_gen = !f.sig.generics.params.is_empty();
        let stmts = &body.stmts;
        let e: Expr = if params.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else {
            let pats: Vec<_> = params.iter().map(|p| p.pat.clone()).collect();
            let tys: Vec<_> = params.iter().map(|p| p.ty.clone()).collect();
            let imp = tys.iter().any(|t| matches!(**t, Type::ImplTrait(_)));
            match (has_gen || imp, params.len() == 1) {
                (true, true) => {
                    let (p, a) = (&pats[0], &args[0]);
                    parse_quote!({ let #p = #a; #(#stmts)* })
                }
                (true, false) => parse_quote!({ let (#(#pats),*) = (#(#args),*); #(#stmts)* }),
                (false, true) => {
                    let (p, a, t) = (&pats[0], &args[0], &tys[0]);
                    parse_quote!({ let #p: #t = #a; #(#stmts)* })
                }
                (false, false) => {
                    parse_quote!({ let (#(#pats),*): (#(#tys),*) = (#(#args),*); #(#stmts)* })
                }
            }
        };
        self.inlined.push(f.key.clone());
        let mut e = e;
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => match self.pick_method(&m.receiver, &m.method.to_string()) {
                Some(i) => self.expand(i, Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
                None => None,
            },
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let mut name = segs.last().unwrap().clone();
                    if segs.len() > 1 && crate::PRIMS.contains(&segs[segs.len() - 2].as_str()) {
                        name = format!("{}_{}", segs[segs.len() - 2], name);
                    }
                    let ty = if segs.len() == 1 {
                        String::new()
                    } else if segs[segs.len() - 2] == "Self" {
                        self.self_ty.clone()
                    } else if segs[segs.len() - 2].chars().next().unwrap().is_uppercase() {
                        segs[segs.len() - 2].clone()
                    } else {
                        String::new()
                    };
                    match self.pick(&name, Some(&ty), false) {
                        Some(i) => self.expand(i, None, c.args.iter().cloned().collect()),
                        None => None,
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

struct Refs<'b> {
    out: BTreeSet<String>,
    self_ty: String,
    fields: &'b BTreeMap<(String, String), String>,
    params: BTreeMap<String, String>,
}
impl<'a, 'b> Visit<'a> for Refs<'b> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        match recv_type(&m.receiver, &self.self_ty, self.fields, &self.params) {
            Some(t) => {
                self.out.insert(format!("{}::{}", t, n));
            }
            None if STD_NAMES.contains(&n.as_str()) => {}
            None => {
                self.out.insert(format!(".{}", n));
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_path(&mut self, p: &'a Path) {
        let n = p.segments.len();
        let last = p.segments.last().unwrap().ident.to_string();
        if n >= 2 {
            let mut t = p.segments[n - 2].ident.to_string();
            if crate::PRIMS.contains(&t.as_str()) {
                self.out.insert(format!("{}_{}", t, last));
            }
            if t == "Self" {
                t = self.self_ty.clone();
            }
            self.out.insert(format!("{}::{}", t, last));
        }
        self.out.insert(last);
        visit::visit_path(self, p);
    }
}
fn param_types(f: &Fun) -> BTreeMap<String, String> {
    let mut params = BTreeMap::new();
    for p in f.sig.inputs.iter() {
        if let FnArg::Typed(t) = p {
            if let (Pat::Ident(i), Some(l)) = (&*t.pat, last_name(&t.ty)) {
                params.insert(i.ident.to_string(), l);
            }
        }
    }
    params
}

thread_local! {
    static NEEDED: std::cell::RefCell<BTreeSet<String>> = Default::default();
    static INLINED: std::cell::RefCell<BTreeMap<String, Vec<String>>> = Default::default();
}

fn field_types(cx: &Ctx) -> BTreeMap<(String, String), String> {
    let mut fields: BTreeMap<(String, String), String> = BTreeMap::new();
    for (n, t) in &cx.types {
        if let Ok(s) = syn::parse_str::<ItemStruct>(t) {
            for f in s.fields.iter() {
                if let (Some(i), Some(l)) = (&f.ident, last_name(&f.ty)) {
                    fields.insert((n.clone(), i.to_string()), l);
                }
            }
        }
    }
    fields
}

pub fn inline_helpers(cx: &mut Ctx) {
    let snapshot = cx.funs.clone();
    let mut by_name: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, f) in snapshot.iter().enumerate() {
        if f.dbkey.is_empty() && !cx.fn_consts.contains(&f.key) {
            by_name.entry(f.sig.ident.to_string()).or_default().push(i);
        }
    }
    let mut all: BTreeMap<String, usize> = BTreeMap::new();
    for f in snapshot.iter() {
        *all.entry(f.sig.ident.to_string()).or_default() += 1;
    }
    let fields = field_types(cx);
    for f in cx.funs.iter_mut() {
        if f.dbkey.is_empty() {
            continue;
        }
        let params = param_types(f);
        let mut v = Inliner {
            all: all.clone(),
            fields: &fields,
            params,
            funs: &snapshot,
            by_name: by_name.clone(),
            depth: 0,
            self_ty: f.self_ty.clone(),
            inlined: vec![],
        };
        v.visit_block_mut(&mut f.block);
        INLINED.with(|m| m.borrow_mut().insert(f.key.clone(), v.inlined));
    }
    // functions without contract that are still referenced
    let mut need: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut r = Refs { out: BTreeSet::new(), self_ty: String::new(), fields: &fields, params: BTreeMap::new() };
        for f in &cx.funs {
            if !f.dbkey.is_empty() || need.contains(&f.key) {
                r.self_ty = f.self_ty.clone();
                r.params = param_types(f);
                r.visit_block(&f.block);
            }
        }
        let mut grew = false;
        for f in &cx.funs {
            let n = f.sig.ident.to_string();
            let has_self = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
            let hit = if f.self_ty.is_empty() {
                r.out.contains(&n)
            } else {
                r.out.contains(&format!("{}::{}", f.self_ty, n)) || (has_self && r.out.contains(&format!(".{}", n)))
            };
            if f.dbkey.is_empty() && hit && need.insert(f.key.clone()) {
                grew = true;
            }
        }
        if !grew {
            break;
        }
    }
    NEEDED.with(|n| *n.borrow_mut() = need);
}

// ------------------------------------------------------------------ expressions
struct Rewriter<'a> {
    cx: &'a Ctx,
    self_ty: String,
    local_consts: BTreeMap<String, i128>,
    local_floats: BTreeMap<String, u64>,
    fields: BTreeMap<(String, String), String>,
    params: BTreeMap<String, String>,
}

fn untyped(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

fn lit_f(bits: u64) -> Expr {
    let l = proc_macro2::Literal::u64_suffixed(bits);
    parse_quote!(v_lit(#l))
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypeMap.visit_type_mut(t);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // block-local constants
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Item(Item::Const(c)) = &s {
                if let Some(v) = crate::const_int(&c.expr, self.cx, &self.self_ty, &ts(&c.ty)) {
                    self.local_consts.insert(c.ident.to_string(), v);
                    continue;
                }
            }
            if let Stmt::Item(Item::Const(c)) = &s {
                if let Some(v) = crate::float_lit(&c.expr) {
                    self.local_floats.insert(c.ident.to_string(), v.to_bits());
                } else {
                    let (i, x) = (&c.ident, &c.expr);
                    keep.push(parse_quote!(let #i = #x;));
                }
                continue;
            }
            if let Stmt::Item(Item::Use(_)) = &s {
                continue;
            }
            // it.for_each(|p| body)  is  for p in it { body }
            if let Stmt::Expr(Expr::MethodCall(m), _) = &s {
                if m.method == "for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let (p, b, it) = (untyped(&c.inputs[0]), &c.body, &m.receiver);
                            keep.push(Stmt::Expr(parse_quote!(for #p in #it { #b; }), None));
                            continue;
                        }
                    }
                }
                // set.extend(it)  is  for x in it { set.insert(x) }, for Vec push
                if m.method == "extend" && m.args.len() == 1 {
                    let op = match recv_type(&m.receiver, &self.self_ty, &self.fields, &self.params).as_deref() {
                        Some("HashSet") | Some("BTreeSet") => Some(id("insert")),
                        Some("Vec") => Some(id("push")),
                        _ => None,
                    };
                    if let Some(op) = op {
                        let (r, it) = (&m.receiver, &m.args[0]);
                        keep.push(Stmt::Expr(parse_quote!(for __e in #it { #r.#op(__e.v_val()); }), None));
                        continue;
                    }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // before the children
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &*u.expr {
                    let v: f64 = f.base10_parse().unwrap();
                    *e = lit_f((-v).to_bits());
                    return;
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if ["panic", "unreachable", "todo", "unimplemented"].contains(&n.as_str()) {
                    *e = parse_quote!(v_panic());
                    return;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().as_str();
                    if segs.iter().any(|s| s == "panicking") || last == "begin_panic" {
                        *e = parse_quote!(v_panic());
                        return;
                    }
                    if segs.len() >= 2 && segs[segs.len() - 2] == "mem" && last == "take" && c.args.len() == 1 {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!(v_mem_take(#a));
                        return;
                    }
                    if last == "from_elem" && c.args.len() == 2 {
                        let (mut a, mut n) = (c.args[0].clone(), c.args[1].clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut n);
                        *e = parse_quote!(vec![#a; #n]);
                        return;
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // it.flat_map(f)  is  it.map(f).flatten()
                if n == "unwrap_or_else" && m.args.len() == 1 && !has_return_in_closure(&m.args[0]) && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() <= 1) {
                    if let Expr::Closure(c) = &m.args[0] {
                        let (r, b) = (&m.receiver, &c.body);
                        *e = match c.inputs.first() {
                            Some(p) => {
                                let p = untyped(p);
                                parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b })
                            }
                            None => parse_quote!(match #r { Some(__v) => __v, None => #b }),
                        };
                    }
                } else if (n == "map" || n == "and_then") && m.args.len() == 1
                    && matches!(&*m.receiver, Expr::MethodCall(x) if (x.method == "as_ref" || x.method == "as_mut") && x.args.is_empty())
                    && matches!(&m.args[0], Expr::Path(_) | Expr::Closure(_))
                    && !has_return_in_closure(&m.args[0])
                {
                    let r = &m.receiver;
                    let (p, b): (Pat, Expr) = match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 => (untyped(&c.inputs[0]), (*c.body).clone()),
                        f => (parse_quote!(__v), parse_quote!(#f(__v))),
                    };
                    let b: Expr = if n == "map" { parse_quote!(Some(#b)) } else { b };
                    *e = parse_quote!(match #r { Some(#p) => #b, None => None });
                } else if n == "flat_map" && m.args.len() == 1 {
                    let (r, f) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(#r.map(#f).flatten());
                } else if n == "fold" && m.args.len() == 2 {
                    // it.fold(init, |acc, x| body)  is a loop
                    if let Expr::Closure(c) = &m.args[1] {
                        if c.inputs.len() == 2 {
                            let (a, p) = (untyped(&c.inputs[0]), untyped(&c.inputs[1]));
                            let (r, i, b) = (&m.receiver, &m.args[0], &c.body);
                            *e = parse_quote!({ let mut __acc = #i; for #p in #r { let #a = __acc; __acc = #b; } __acc });
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let v: f64 = f.base10_parse().unwrap();
                *e = lit_f(v.to_bits());
            }
            Expr::Cast(c) => {
                let t = ts(&c.ty);
                if t == "F64" || t == "f64" {
                    let x = match &*c.expr {
                        Expr::Paren(p) => (*p.expr).clone(),
                        x => x.clone(),
                    };
                    *e = parse_quote!((#x).as_f64());
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if VMETHODS.contains(&n.as_str()) {
                    m.method = id(&format!("v_{}", n));
                    if let Expr::Paren(p) = &*m.receiver {
                        if let Expr::Range(r) = &*p.expr {
                            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                                m.receiver = parse_quote!(v_range(#a, #b));
                            }
                        }
                    }
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if segs.len() == 1 {
                    if let Some(v) = self.local_consts.get(&last) {
                        let l = proc_macro2::Literal::i128_unsuffixed(*v);
                        *e = parse_quote!(#l);
                        return;
                    }
                    if let Some(b) = self.local_floats.get(&last) {
                        *e = lit_f(*b);
                        return;
                    }
                }
                if segs.len() >= 2 && self.cx.prim_methods.contains(&(segs[segs.len() - 2].clone(), last.clone())) {
                    let n = id(&format!("{}_{}", segs[segs.len() - 2], last));
                    *e = parse_quote!(#n);
                    return;
                }
                if self.cx.fn_consts.contains(&last) {
                    let n = id(&last);
                    *e = parse_quote!(#n());
                    return;
                }
                for k in [last.clone(), format!("{}::{}", self.self_ty, last)] {
                    if let Some(b) = self.cx.float_consts.get(&k) {
                        *e = lit_f(*b);
                        return;
                    }
                }
                let local = |s: &str| ["crate", "self", "super"].contains(&s) || self.cx.mods.contains(s);
                if segs.len() > 1 && segs[..segs.len() - 1].iter().all(|s| local(s)) {
                    let seg = p.path.segments.last().unwrap().clone();
                    p.path.segments = std::iter::once(seg).collect();
                    p.path.leading_colon = None;
                } else if segs.len() > 1 && segs[0] == "f64" {
                    p.path.segments[0].ident = id("F64");
                } else if segs.len() > 2 && local(&segs[0]) {
                    let keep: Vec<_> = p.path.segments.iter().cloned().skip_while(|s| local(&s.ident.to_string())).collect();
                    p.path.segments = keep.into_iter().collect();
                    p.path.leading_colon = None;
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(<<)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(>>)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = #l #op (#r));
                }
            }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

// ------------------------------------------------------------------ bindings
struct Binds(Vec<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.chars().next().unwrap().is_uppercase() {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

// ------------------------------------------------------------------ anchors
struct Shallow(Vec<String>);
impl<'a> Visit<'a> for Shallow {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let n = m.method.to_string();
        self.0.push(n.strip_prefix("v_").unwrap_or(&n).to_string());
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        visit::visit_expr_call(self, m);
        if let Expr::Path(p) = &*m.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
}

/// while let Some(p) = it.next() { body }, it not used in body, is for p in it { body }
fn while_let_next(e: &Expr) -> Expr {
    if let Expr::While(w) = e {
        if let Expr::Let(l) = &*w.cond {
            if let (Pat::TupleStruct(p), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                if p.path.is_ident("Some") && p.elems.len() == 1 && (m.method == "v_next" || m.method == "next") {
                    if let Expr::Path(it) = &*m.receiver {
                        struct Uses(String, bool);
                        impl<'a> Visit<'a> for Uses {
                            fn visit_ident(&mut self, i: &'a Ident) {
                                if i == &self.0 {
                                    self.1 = true;
                                }
                            }
                        }
                        if let Some(i) = it.path.get_ident() {
                            let mut u = Uses(i.to_string(), false);
                            u.visit_block(&w.body);
                            if !u.1 {
                                let (pat, body) = (&p.elems[0], &w.body);
                                return parse_quote!(for #pat in #it #body);
                            }
                        }
                    }
                }
            }
        }
    }
    e.clone()
}

/// ($i, $a): the variable a loop counts with, and the first other local it assigns
fn loop_names(e: &Expr) -> (String, String) {
    struct Ids(Vec<String>);
    impl<'a> Visit<'a> for Ids {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
        }
    }
    struct Asg(Vec<String>);
    impl<'a> Visit<'a> for Asg {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if let Some(i) = p.path.get_ident() {
                    self.0.push(i.to_string());
                }
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut asg = Asg(vec![]);
    let mut i = String::from("__none");
    match e {
        Expr::ForLoop(f) => {
            asg.visit_block(&f.body);
            let mut b = Binds(vec![]);
            b.visit_pat(&f.pat);
            if let Some(x) = b.0.first() {
                i = x.clone();
            }
        }
        Expr::While(w) => {
            asg.visit_block(&w.body);
            let mut v = Ids(vec![]);
            v.visit_expr(&w.cond);
            if let Some(x) = v.0.iter().find(|x| asg.0.contains(x)).or(v.0.first()) {
                i = x.clone();
            }
        }
        Expr::Loop(l) => {
            asg.visit_block(&l.body);
            if let Some(x) = asg.0.first() {
                i = x.clone();
            }
        }
        _ => {}
    }
    let a = asg.0.iter().find(|x| **x != i).cloned().unwrap_or("__none".into());
    (i, a)
}
fn loop_vars(t: &str, n: &(String, String)) -> String {
    t.replace("$i", &n.0).replace("$a", &n.1)
}

struct HasBreak(bool);
impl<'a> Visit<'a> for HasBreak {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

struct Annot<'a> {
    cx: &'a mut Ctx,
    spec: FnSpec,
    nloop: usize,
    nclo: usize,
    calls: BTreeMap<String, usize>,
    lost: Vec<String>,
    used: BTreeSet<usize>,
    has_ret: bool,
    /// ghost names in scope, to leave out exit hints that do not apply at an early return
    declared: BTreeSet<String>,
    skipped: usize,
}

/// `__name`s in a text; `decl`: only those a `let ghost` introduces
fn ghosts(t: &str, decl: bool) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[s..i].iter().collect();
            let before: String = cs[..s].iter().collect();
            let b = before.trim_end();
            if w.starts_with("__") && (!decl || b.ends_with("let ghost") || b.ends_with("let ghost mut")) {
                out.insert(w);
            }
        } else {
            i += 1;
        }
    }
    out
}

impl<'a> Annot<'a> {
    fn anchors(&mut self, path: &[&str]) -> Vec<Stmt> {
        let mut out = vec![];
        for i in 0..self.spec.anchors.len() {
            let (a, t) = self.spec.anchors[i].clone();
            if a.len() == path.len() && a.iter().zip(path).all(|(x, y)| x == y) {
                self.used.insert(i);
                self.declared.extend(ghosts(&t, true));
                out.push(self.cx.mark(&t));
            }
        }
        out
    }

    fn loop_text(&mut self, n: usize, e: &Expr) -> (String, String, String, String) {
        // invariant, invariant_except_break, ensures, decreases
        let mut r = (String::new(), String::new(), String::new(), String::new());
        let kind = match e {
            Expr::ForLoop(f) if matches!(&*f.expr, Expr::Range(_)) => "range",
            Expr::ForLoop(f) if matches!(&*f.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_))) => "range",
            Expr::ForLoop(_) => "for",
            Expr::While(_) => "while",
            _ => "loop",
        };
        match self.spec.loop_kinds.get(&(n, kind.to_string())).or(self.spec.loops.get(&n)) {
            None => self.lost.push(format!("loop {} has no invariant in the specification", n)),
            Some(t) => {
                let mut k = 0;
                for l in t.lines() {
                    let lt = l.trim();
                    let (nk, rest) = if let Some(x) = lt.strip_prefix("invariant_except_break") {
                        (1, x)
                    } else if let Some(x) = lt.strip_prefix("invariant") {
                        (0, x)
                    } else if let Some(x) = lt.strip_prefix("ensures") {
                        (2, x)
                    } else if let Some(x) = lt.strip_prefix("decreases") {
                        (3, x)
                    } else {
                        (k, l)
                    };
                    k = nk;
                    let d = match k {
                        0 => &mut r.0,
                        1 => &mut r.1,
                        2 => &mut r.2,
                        _ => &mut r.3,
                    };
                    d.push_str(rest);
                    d.push('\n');
                }
            }
        }
        for s in [&mut r.0, &mut r.1, &mut r.2, &mut r.3] {
            *s = s
                .replace("$it", &format!("__it{}", n))
                .replace("$s", &format!("__s{}", n))
                .replace("$n", &format!("__n{}", n));
            *s = loop_vars(s, &loop_names(e));
        }
        r
    }

    fn header_text(inv: &str, ieb: &str, ens: &str, dec: &str) -> String {
        let mut s = String::from("^");
        if !inv.trim().is_empty() {
            s.push_str(&format!("    invariant {}\n", inv.trim_end()));
        }
        if !ieb.trim().is_empty() {
            s.push_str(&format!("    invariant_except_break {}\n", ieb.trim_end()));
        }
        if !ens.trim().is_empty() {
            s.push_str(&format!("    ensures {}\n", ens.trim_end()));
        }
        if !dec.trim().is_empty() {
            s.push_str(&format!("    decreases {}\n", dec.trim_end()));
        }
        s
    }

    fn with_n(&mut self, n: usize, names: &(String, String), v: Vec<Stmt>) -> Vec<Stmt> {
        // substitute $it/$s/$n in anchor texts of loop n
        for s in &v {
            if let Stmt::Macro(m) = s {
                let k: usize = m.mac.tokens.to_string().parse().unwrap();
                let t = self.cx.markers[k].clone();
                self.cx.markers[k] = t
                    .replace("$it", &format!("__it{}", n))
                    .replace("$s", &format!("__s{}", n))
                    .replace("$n", &format!("__n{}", n));
                self.cx.markers[k] = loop_vars(&self.cx.markers[k].clone(), names);
            }
        }
        v
    }

    fn do_loop(&mut self, e: &Expr, out: &mut Vec<Stmt>) {
        let n = self.nloop;
        self.nloop += 1;
        let ns = n.to_string();
        let (inv, ieb, ens, dec) = self.loop_text(n, e);
        let names = loop_names(e);
        let before = self.anchors(&["loop", &ns, "before"]);
        let start = self.anchors(&["loop", &ns, "start"]);
        let end = self.anchors(&["loop", &ns, "end"]);
        let after = self.anchors(&["loop", &ns, "after"]);
        let start = self.with_n(n, &names, start);
        let end = self.with_n(n, &names, end);
        let after = self.with_n(n, &names, after);
        let before = self.with_n(n, &names, before);
        let finish = |b: &Block, start: &[Stmt], end: &[Stmt]| -> Vec<Stmt> {
            let mut v: Vec<Stmt> = start.to_vec();
            v.extend(b.stmts.iter().cloned().map(|s| match s {
                Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                s => s,
            }));
            v.extend(end.to_vec());
            v
        };
        let e = &while_let_next(e);
        match e {
            Expr::ForLoop(f) => {
                let mut body = f.body.clone();
                let mut src = (*f.expr).clone();
                self.visit_expr_mut(&mut src);
                let src: Expr = match src {
                    Expr::Reference(r) => {
                        let x = r.expr;
                        parse_quote!((#x).v_into_iter())
                    }
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                        let (a, b) = (r.start.unwrap(), r.end.unwrap());
                        if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                            parse_quote!(v_range(#a, #b))
                        } else {
                            parse_quote!(v_range_incl(#a, #b))
                        }
                    }
                    x => x,
                };
                self.visit_block_mut(&mut body);
                let mut hb = HasBreak(false);
                hb.visit_block(&body);
                let it = id(&format!("__it{}", n));
                let (s, c) = (format!("__s{}", n), format!("__n{}", n));
                out.push(parse_quote!(let mut #it = #src;));
                let m = self.cx.mark(&format!("let ghost {s} = {it}@; let ghost mut {c}: int = 0;"));
                out.push(m);
                out.extend(before);
                let auto = format!("0 <= {c} <= {s}.len(), iter_at({it}@, {s}, {c}), {it}.wf(),\n{inv}");
                let ens2 = if hb.0 { ens } else { format!("{c} == {s}.len(),\n{ens}") };
                let dec2 = if dec.trim().is_empty() { format!("{s}.len() - {c}") } else { dec };
                let h = self.cx.mark(&Self::header_text(&auto, &ieb, &ens2, &dec2));
                let m2 = self.cx.mark(&format!("proof {{ {c} = {c} + 1; }}"));
                let pat = &f.pat;
                let stmts = finish(&body, &start, &end);
                out.push(Stmt::Expr(
                    parse_quote!(loop { #h match #it.v_next() { None => { break; } Some(#pat) => { #m2 #(#stmts)* } } }),
                    Some(Default::default()),
                ));
            }
            Expr::While(w) => {
                let mut body = w.body.clone();
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                self.visit_block_mut(&mut body);
                out.extend(before);
                let h = self.cx.mark(&Self::header_text(&inv, &ieb, &ens, &dec));
                let stmts = finish(&body, &start, &end);
                if let Expr::Let(l) = cond {
                    let (p, x) = (l.pat, l.expr);
                    out.push(Stmt::Expr(
                        parse_quote!(loop { #h match #x { #p => { #(#stmts)* } _ => { break; } } }),
                        Some(Default::default()),
                    ));
                } else {
                    out.push(Stmt::Expr(parse_quote!(while #cond { #h #(#stmts)* }), Some(Default::default())));
                }
            }
            Expr::Loop(w) => {
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                out.extend(before);
                let h = self.cx.mark(&Self::header_text(&inv, &ieb, &ens, &dec));
                let stmts = finish(&body, &start, &end);
                out.push(Stmt::Expr(parse_quote!(loop { #h #(#stmts)* }), Some(Default::default())));
            }
            _ => unreachable!(),
        }
        out.extend(after);
    }

    fn exit_stmts(&mut self, e: Option<Expr>, is_return: bool) -> Option<Vec<Stmt>> {
        // hints about things that do not exist yet at this return do not apply
        let mut hints = vec![];
        for i in 0..self.spec.anchors.len() {
            let (a, t) = self.spec.anchors[i].clone();
            if a.len() == 1 && (a[0] == "exit" || (a[0] == "return" && is_return)) {
                self.used.insert(i);
                let mut g = ghosts(&t, false);
                g.remove("__r");
                if is_return && !g.is_subset(&self.declared) {
                    self.skipped += 1;
                } else {
                    hints.push(self.cx.mark(&t));
                }
            }
        }
        if !is_return {
            hints.extend(self.anchors(&["end"]));
        }
        if hints.is_empty() {
            return None;
        }
        let mut v = vec![];
        match e {
            Some(e) => {
                if self.has_ret {
                    v.push(parse_quote!(let __r = #e;));
                } else {
                    v.push(Stmt::Expr(e, Some(Default::default())));
                }
                v.extend(hints);
                if is_return {
                    v.push(if self.has_ret { parse_quote!(return __r;) } else { parse_quote!(return;) });
                } else if self.has_ret {
                    v.push(Stmt::Expr(parse_quote!(__r), None));
                }
            }
            None => {
                v.extend(hints);
                if is_return {
                    v.push(parse_quote!(return;));
                }
            }
        }
        Some(v)
    }
}

impl<'a> VisitMut for Annot<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let outer = self.declared.clone();
        let mut out: Vec<Stmt> = vec![];
        for s in stmts {
            // calls in this statement, outside nested blocks
            let mut sh = Shallow(vec![]);
            sh.visit_stmt(&s);
            let (mut pre, mut post) = (vec![], vec![]);
            for c in sh.0 {
                let k = self.calls.entry(c.clone()).or_insert(0);
                let ks = k.to_string();
                *k += 1;
                pre.extend(self.anchors(&["call", &c, &ks, "before"]));
                post.extend(self.anchors(&["call", &c, &ks, "after"]));
                pre.extend(self.anchors(&["call", &c, "*", "before"]));
                post.extend(self.anchors(&["call", &c, "*", "after"]));
            }
            if let Stmt::Local(l) = &s {
                let mut bs = Binds(vec![]);
                bs.visit_pat(&l.pat);
                for x in bs.0 {
                    post.extend(self.anchors(&["let", &x, "after"]));
                }
            }
            out.extend(pre);
            match s {
                Stmt::Expr(e @ (Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)), _) => self.do_loop(&e, &mut out),
                Stmt::Expr(Expr::Return(r), _) => {
                    let mut e = r.expr.map(|x| *x);
                    if let Some(x) = e.as_mut() {
                        self.visit_expr_mut(x);
                    }
                    match self.exit_stmts(e.clone(), true) {
                        Some(v) => out.extend(v),
                        None => out.push(match e {
                            Some(x) => parse_quote!(return #x;),
                            None => parse_quote!(return;),
                        }),
                    }
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    let semi = if post.is_empty() { semi } else { Some(Default::default()) };
                    out.push(Stmt::Expr(e, semi));
                }
                mut s => {
                    visit_mut::visit_stmt_mut(self, &mut s);
                    out.push(s);
                }
            }
            out.extend(post);
        }
        b.stmts = out;
        self.declared = outer;
    }

    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let n = self.nclo;
        self.nclo += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        let Some((params, contract)) = self.spec.closures.get(&n).cloned() else {
            self.lost.push(format!("closure {} has no contract", n));
            return;
        };
        let tys: Vec<&str> = params.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()).collect();
        if tys.len() != c.inputs.len() {
            self.lost.push(format!("closure {} parameters changed", n));
            return;
        }
        let mut text = contract;
        let mut shadow: Vec<Stmt> = vec![];
        let mut k = 0;
        let mut body = c.body.clone();
        for (p, t) in c.inputs.iter_mut().zip(tys) {
            let ty: Type = match parse_str(t) {
                Ok(t) => t,
                Err(_) => continue,
            };
            let pat: Pat = match &*p {
                Pat::Type(pt) => (*pt.pat).clone(),
                ref x => (*x).clone(),
            };
            let mut name = format!("__p{}", k);
            if let Pat::Ident(pi) = &pat {
                name = pi.ident.to_string();
                if let Type::Reference(r) = &ty {
                    if crate::PRIMS.contains(&ts(&r.elem).as_str()) {
                        let i = &pi.ident;
                        let rt = &r.elem;
                        shadow.push(parse_quote!(let #i: #rt = *#i;));
                        Underef(&name).visit_expr_mut(&mut body);
                    }
                }
                let i = &pi.ident;
                *p = Pat::Type(PatType {
                    attrs: vec![],
                    pat: Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None })),
                    colon_token: Default::default(),
                    ty: Box::new(ty),
                });
            } else {
                let i = id(&name);
                shadow.push(parse_quote!(let #pat = #i;));
                *p = Pat::Type(PatType {
                    attrs: vec![],
                    pat: Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None })),
                    colon_token: Default::default(),
                    ty: Box::new(ty),
                });
            }
            text = text.replace(&format!("${}", k), &name);
            k += 1;
        }
        let m = self.cx.mark(&format!("^{}", text));
        let b: Expr = match &*body {
            Expr::Block(b) => {
                let st = &b.block.stmts;
                parse_quote!({ #m #(#shadow)* #(#st)* })
            }
            x => parse_quote!({ #m #(#shadow)* #x }),
        };
        *c.body = b;
        c.output = ReturnType::Default;
    }
}

struct Underef<'a>(&'a str);
impl<'a> VisitMut for Underef<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                if p.path.is_ident(self.0) {
                    let x = (*u.expr).clone();
                    *e = x;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------------------------ emission
pub struct Info {
    pub text: String,
    pub lost: Vec<String>,
    pub loops: usize,
    pub skipped: usize,
    pub renamed: BTreeMap<String, String>,
    pub bindings: Vec<String>,
    pub stub: bool,
    pub inlined: Vec<String>,
}

fn rename_locals(t: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return t.to_string();
    }
    let cs: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[s..i].iter().collect();
            let field = s > 0 && cs[s - 1] == '.' && !(s > 1 && cs[s - 2] == '.');
            let call = i < cs.len() && cs[i] == '(';
            match map.get(&w) {
                Some(n) if !field && !call => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else if cs[i].is_ascii_digit() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                out.push(cs[i]);
                i += 1;
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

pub fn emit(cx: &mut Ctx, db: &Db, f: &Fun, stubs: &BTreeSet<String>, variant: Option<&String>) -> Option<Info> {
    if f.dbkey.is_empty() && !NEEDED.with(|n| n.borrow().contains(&f.key)) {
        return None;
    }
    let stub = stubs.contains(&f.key);
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut spec = db.fns.get(&f.dbkey).cloned().unwrap_or_else(|| FnSpec { ret: "ret".into(), ..Default::default() });

    if let Some(v) = variant {
        if let Some(s) = db.variants.get(&(f.dbkey.clone(), v.clone())) {
            spec = s.clone();
        }
    }

    // generic iterator parameters become SeqIter<Item>
    let mut gmap: Vec<(String, Type)> = vec![];
    let mut look = |name: String, bounds: Vec<TypeParamBound>| {
        for b in bounds {
            if let TypeParamBound::Trait(t) = b {
                let s = t.path.segments.last().unwrap();
                if s.ident == "Iterator" || s.ident == "IntoIterator" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        for x in &a.args {
                            if let GenericArgument::AssocType(at) = x {
                                let ty = &at.ty;
                                gmap.push((name.clone(), parse_quote!(SeqIter<#ty>)));
                            }
                        }
                    }
                }
            }
        }
    };
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            look(t.ident.to_string(), t.bounds.iter().cloned().collect());
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                look(ts(&t.bounded_ty), t.bounds.iter().cloned().collect());
            }
        }
    }
    if !gmap.is_empty() {
        let names: Vec<String> = gmap.iter().map(|g| g.0.clone()).collect();
        let keep: Vec<GenericParam> = sig
            .generics
            .params
            .iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if names.contains(&t.ident.to_string())))
            .cloned()
            .collect();
        sig.generics.params = keep.into_iter().collect();
        if let Some(w) = sig.generics.where_clause.as_mut() {
            let keep: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter(|p| !matches!(p, WherePredicate::Type(t) if names.contains(&ts(&t.bounded_ty))))
                .cloned()
                .collect();
            w.predicates = keep.into_iter().collect();
        }
        if sig.generics.where_clause.as_ref().map(|w| w.predicates.is_empty()).unwrap_or(false) {
            sig.generics.where_clause = None;
        }
        struct G<'a>(&'a [(String, Type)]);
        impl<'a> VisitMut for G<'a> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    if let Some(i) = p.path.get_ident() {
                        for (n, ty) in self.0 {
                            if i == n {
                                *t = ty.clone();
                                return;
                            }
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t);
            }
        }
        let mut g = G(&gmap);
        g.visit_signature_mut(&mut sig);
        g.visit_block_mut(&mut block);
    }
    TypeMap.visit_signature_mut(&mut sig);

    // local names, before anything is generated
    let mut bs = Binds(vec![]);
    bs.visit_signature(&sig);
    bs.visit_block(&block);
    let bindings = bs.0;
    let mut renamed = BTreeMap::new();
    if let Some(base) = db.bindings.get(&f.dbkey) {
        let now: BTreeSet<&String> = bindings.iter().collect();
        if base.len() == bindings.len() {
            for (b, n) in base.iter().zip(&bindings) {
                if b != n && !now.contains(b) {
                    renamed.insert(b.clone(), n.clone());
                }
            }
        } else {
            // parameters are still positional
            let np = sig.inputs.iter().filter(|p| matches!(p, FnArg::Typed(_))).count();
            for (b, n) in base.iter().zip(&bindings).take(np) {
                if b != n && !now.contains(b) {
                    renamed.insert(b.clone(), n.clone());
                }
            }
        }
    }
    if !renamed.is_empty() {
        spec.contract = rename_locals(&spec.contract, &renamed);
        for (_, t) in spec.loops.iter_mut() {
            *t = rename_locals(t, &renamed);
        }
        for (_, t) in spec.loop_kinds.iter_mut() {
            *t = rename_locals(t, &renamed);
        }
        for (a, t) in spec.anchors.iter_mut() {
            *t = rename_locals(t, &renamed);
            if a[0] == "let" {
                if let Some(n) = renamed.get(&a[1]) {
                    a[1] = n.clone();
                }
            }
        }
    }

    let mut rw = Rewriter {
        cx,
        self_ty: f.self_ty.clone(),
        local_consts: BTreeMap::new(),
        local_floats: BTreeMap::new(),
        fields: field_types(cx),
        params: param_types(f),
    };
    rw.visit_block_mut(&mut block);
    // a v_ method defined here (iter, next, into_iter on local types)
    if f.self_ty != "" && VMETHODS.contains(&sig.ident.to_string().as_str()) {
        sig.ident = id(&format!("v_{}", sig.ident));
    }

    let has_ret = !matches!(&sig.output, ReturnType::Default);
    let mut an = Annot {
        cx,
        spec: spec.clone(),
        nloop: 0,
        nclo: 0,
        calls: BTreeMap::new(),
        lost: vec![],
        used: BTreeSet::new(),
        has_ret,
        declared: BTreeSet::new(),
        skipped: 0,
    };
    for (a, t) in &spec.anchors {
        if a.len() == 1 && a[0] == "start" {
            an.declared.extend(ghosts(t, true));
        }
    }
    if !stub {
        an.visit_block_mut(&mut block);
        // tail
        let tail = match block.stmts.last() {
            Some(Stmt::Expr(e, None)) => Some(e.clone()),
            _ => None,
        };
        let fallthrough = !matches!(block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
        if fallthrough {
            if let Some(v) = an.exit_stmts(tail.clone(), false) {
                if tail.is_some() {
                    block.stmts.pop();
                }
                block.stmts.extend(v);
            }
        } else {
            let _ = an.anchors(&["end"]);
        }
        let st = an.anchors(&["start"]);
        let mut v = st;
        v.extend(std::mem::take(&mut block.stmts));
        block.stmts = v;
    }
    let mut lost = an.lost;
    if !stub {
        for (i, (a, _)) in spec.anchors.iter().enumerate() {
            if !an.used.contains(&i) && a[0] != "return" {
                lost.push(format!("hint anchor lost: {}", a.join(" ")));
            }
        }
        for n in spec.loops.keys() {
            if *n >= an.nloop {
                lost.push(format!("loop {} of the specification not found", n));
            }
        }
        for n in spec.closures.keys() {
            if *n >= an.nclo {
                lost.push(format!("closure {} of the specification not found", n));
            }
        }
    }
    let (loops, skipped) = (an.nloop, an.skipped);

    // signature text
    let gens = {
        let mut g = sig.generics.clone();
        g.where_clause = None;
        ts(&g)
    };
    let wc = sig.generics.where_clause.as_ref().map(|w| ts(w)).unwrap_or_default();
    let inputs = ts(&sig.inputs);
    let out = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!("-> ({}: {})", spec.ret, ts(t)),
    };
    let vis = "pub ";
    let mut s = String::new();
    if !f.header.is_empty() {
        s.push_str(&format!("{} {{\n", f.header));
    }
    s.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    s.push_str(&spec.attrs);
    if stub {
        s.push_str("#[verifier::external_body]\n");
    }
    s.push_str(&format!("{}fn {}{}({}) {} {}\n", vis, sig.ident, gens, inputs, out, wc));
    s.push_str(spec.contract.trim_end());
    s.push('\n');
    if stub {
        s.push_str("{ unimplemented!() }\n");
    } else {
        let body = rustfmt(&format!("fn __b() {}", ts(&block)));
        let body = body.trim_start().strip_prefix("fn __b()").unwrap_or(&body).trim_start().to_string();
        s.push_str(&body);
    }
    if !f.header.is_empty() {
        s.push_str("}\n");
    }
    let inlined = INLINED.with(|m| m.borrow().get(&f.key).cloned().unwrap_or_default());
    Some(Info { text: s, lost, loops, skipped, renamed, bindings, stub, inlined })
}

pub fn table_text(cx: &Ctx) -> String {
    let mut s = String::new();
    for (k, t) in &cx.tables {
        s.push_str(&format!("pub closed spec fn {}_rows() -> int {{ {} }}\n", k, t.len()));
        let mut sel = String::new();
        for (i, row) in t.iter().enumerate() {
            s.push_str(&format!(
                "closed spec fn {}_{}() -> Seq<u64> {{ seq![{}] }}\n",
                k,
                i,
                row.iter().map(|b| format!("{}u64", b)).collect::<Vec<_>>().join(",")
            ));
            sel.push_str(&format!("if i == {} {{ {}_{}() }} else ", i, k, i));
        }
        s.push_str(&format!("pub closed spec fn {}_row(i: int) -> Seq<u64> {{ {}{{ Seq::empty() }} }}\n", k, sel));
    }
    s
}

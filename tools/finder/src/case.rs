//! A case: sketches and a history of operations on them, and how it is judged.
use crate::model;
use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF};
#[cfg(feature = "std")]
use hyperloglogplus::HyperLogLogPlus;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ randomness
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}

// ------------------------------------------------------------------ hashers
/// The hash of a u64 is that number.
#[derive(Default, Clone)]
pub struct Pass(u64);
impl Hasher for Pass {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) { self.0 = v; }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BuildA { pub tag: u64 }
impl BuildHasher for BuildA { type Hasher = Pass; fn build_hasher(&self) -> Pass { Pass(0) } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BuildB { pub name: String }
#[derive(Default, Clone)]
pub struct PassB(u64);
impl Hasher for PassB {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) { self.0 = v; }
}
impl BuildHasher for BuildB { type Hasher = PassB; fn build_hasher(&self) -> PassB { PassB(0) } }
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct W(pub u64);
impl Hash for W { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.0) } }
#[allow(dead_code)]
pub type Unused = BuildHasherDefault<Pass>;

// ------------------------------------------------------------------ cases
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Run {
    List(Vec<u64>),
    Uniform { seed: u64, n: u64 },
    /// registers a..b, one value each, rank drawn from lo..=hi
    Fill { seed: u64, a: u64, b: u64, lo: u32, hi: u32 },
    /// n values in random registers, rank from lo..=hi
    Some { seed: u64, n: u64, lo: u32, hi: u32 },
    /// n increasing sparse codes with gaps of a pattern (HyperLogLog++)
    Codes { seed: u64, n: u64, gap: u32, odd: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins { sk: usize, how: u8, run: Run },
    Merge { dst: usize, src: usize },
    Count { sk: usize },
    Clone { dst: usize, src: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct New { pub plus: bool, pub p: u8, pub alt: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { pub sketches: Vec<New>, pub ops: Vec<Op> }

pub fn with_rank(plus: bool, p: u8, idx: u64, rank: u32, rng: &mut Rng) -> u64 {
    let w = if plus { 64 } else { 32 } - p as u32;
    let r = rank.clamp(1, w + 1);
    let mask = if w - r.min(w) == 0 { 0 } else { (1u64 << (w - r.min(w))) - 1 };
    let body = if r > w { 0 } else { (1u64 << (w - r)) | (rng.next() & mask) };
    let h = (idx << w) | body;
    if plus { h } else { (h & 0xffff_ffff) | (rng.next() << 32) }
}
impl Run {
    pub fn hashes(&self, plus: bool, p: u8) -> Vec<u64> {
        let m = 1u64 << p;
        match self {
            Run::List(v) => v.clone(),
            Run::Uniform { seed, n } => { let mut r = Rng(*seed); (0..*n).map(|_| r.next()).collect() }
            Run::Fill { seed, a, b, lo, hi } => {
                let mut r = Rng(*seed);
                (*a..(*b).min(m)).map(|i| { let k = r.range(*lo as u64, *hi as u64) as u32; with_rank(plus, p, i, k, &mut r) }).collect()
            }
            Run::Some { seed, n, lo, hi } => {
                let mut r = Rng(*seed);
                (0..*n).map(|_| { let i = r.below(m); let k = r.range(*lo as u64, *hi as u64) as u32; with_rank(plus, p, i, k, &mut r) }).collect()
            }
            Run::Codes { seed, n, gap, odd } => {
                let mut r = Rng(*seed);
                let w = r.below(24) + 1;
                let mut idx: u64 = r.below(1 << w);
                let mut out = vec![];
                for _ in 0..*n {
                    if idx >= 1 << 25 { break; }
                    let low = (1u64 << (25 - p.min(24))) - 1;
                    let i = if *odd > 0 && r.chance(*odd as u64) { idx & !low } else { idx };
                    let tail = match r.below(6) { 0 => 0, 1 => (1 << 39) - 1, 2 => 1u64 << (r.below(39)), _ => r.next() & ((1 << 39) - 1) };
                    out.push((i << 39) | tail);
                    let g = *gap as u64;
                    idx += match r.below(5) { 0 => 1, 1 => g, 2 => g.max(2) - 1, 3 => r.below(g.max(1)) + 1, _ => g + r.below(3) };
                }
                out
            }
        }
    }
}

// ------------------------------------------------------------------ state view
#[derive(Deserialize, Default, Clone, Debug)]
struct RegView { buf: Option<Vec<u32>>, count: Option<usize>, zeros: Option<usize> }
#[derive(Deserialize, Default, Clone, Debug)]
struct SparseView { count: Option<usize>, buf: Option<Vec<u8>> }
#[derive(Deserialize, Default, Clone, Debug)]
struct View {
    builder: Option<serde_json::Value>,
    precision: Option<u8>,
    tmpset: Option<Vec<u32>>,
    sparse: Option<SparseView>,
    registers: Option<RegView>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Repr {
    Dense { regs: Vec<u8>, zeros: Option<usize>, left: Option<(usize, usize)> },
    Sparse { pending: Vec<u32>, stored: Vec<u32>, bytes: Vec<u8>, count: Option<usize> },
    Unknown,
}
#[derive(Clone, Debug, PartialEq)]
pub struct State { pub builder: Option<serde_json::Value>, pub precision: Option<u8>, pub repr: Repr }

fn unpack(v: &RegView, m: usize, width: usize) -> Option<Vec<u8>> {
    let (buf, per) = (v.buf.as_ref()?, 32 / width);
    if buf.len() != (m + per - 1) / per || v.count.unwrap_or(m) != m { return None; }
    Some((0..m).map(|i| (buf[i / per] >> (i % per * width) & ((1 << width) - 1)) as u8).collect())
}
pub fn state<T: Serialize>(x: &T, plus: bool, p: u8) -> State {
    let unk = State { builder: None, precision: None, repr: Repr::Unknown };
    let Ok(s) = serde_json::to_vec(x) else { return unk };
    // a sketch without its optional registers is sparse; without the other fields it is unknown
    let Ok(v) = serde_json::from_slice::<View>(&s) else { return unk };
    let m = 1usize << p;
    let repr = match (&v.registers, plus) {
        (Some(r), true) => match unpack(r, m, 6) {
            Some(regs) => Repr::Dense { regs, zeros: r.zeros, left: v.tmpset.as_ref().zip(v.sparse.as_ref()).map(|(t, s)| (t.len(), s.buf.as_ref().map_or(0, |b| b.len()))) },
            None => Repr::Unknown,
        },
        (Some(r), false) => match unpack(r, m, 5) {
            Some(regs) => Repr::Dense { regs, zeros: r.zeros, left: None },
            None => Repr::Unknown,
        },
        (None, true) => match (v.tmpset, v.sparse) {
            (Some(t), Some(SparseView { count, buf: Some(b) })) => match model::vint_decode(&b) {
                Some(stored) => { let mut t: Vec<u32> = t; t.sort(); Repr::Sparse { pending: t, stored, bytes: b, count } }
                None => Repr::Sparse { pending: vec![], stored: vec![], bytes: b, count: None },
            },
            _ => Repr::Unknown,
        },
        (None, false) => Repr::Unknown,
    };
    State { builder: v.builder, precision: v.precision, repr }
}

// ------------------------------------------------------------------ real sketches
#[derive(Clone)]
pub enum Sk {
    PfA(HyperLogLogPF<u64, BuildA>),
    PfB(HyperLogLogPF<W, BuildB>),
    #[cfg(feature = "std")]
    PlA(HyperLogLogPlus<u64, BuildA>),
    #[cfg(feature = "std")]
    PlB(HyperLogLogPlus<W, BuildB>),
}
pub fn err_name(e: HyperLogLogError) -> &'static str {
    match e { HyperLogLogError::InvalidPrecision => "InvalidPrecision", HyperLogLogError::IncompatiblePrecision => "IncompatiblePrecision", #[allow(unreachable_patterns)] _ => "another error" }
}
impl Sk {
    pub fn new(n: &New) -> Result<Sk, &'static str> {
        let (a, b) = (BuildA { tag: 7 }, BuildB { name: "b".into() });
        match (n.plus, n.alt) {
            (false, false) => HyperLogLogPF::new(n.p, a).map(Sk::PfA).map_err(err_name),
            (false, true) => HyperLogLogPF::new(n.p, b).map(Sk::PfB).map_err(err_name),
            #[cfg(feature = "std")]
            (true, false) => HyperLogLogPlus::new(n.p, a).map(Sk::PlA).map_err(err_name),
            #[cfg(feature = "std")]
            (true, true) => HyperLogLogPlus::new(n.p, b).map(Sk::PlB).map_err(err_name),
            #[cfg(not(feature = "std"))]
            _ => Err("not built"),
        }
    }
    #[allow(deprecated)]
    pub fn ins(&mut self, h: u64, how: u8) {
        match self {
            Sk::PfA(s) => match how { 0 => s.insert(&h), 1 => s.add(&h), _ => s.insert_any(&W(h)) },
            Sk::PfB(s) => match how { 0 => s.insert(&W(h)), 1 => s.add(&W(h)), _ => s.insert_any(&h) },
            #[cfg(feature = "std")]
            Sk::PlA(s) => match how { 0 => s.insert(&h), 1 => s.add(&h), _ => s.insert_any(&W(h)) },
            #[cfg(feature = "std")]
            Sk::PlB(s) => match how { 0 => s.insert(&W(h)), 1 => s.add(&W(h)), _ => s.insert_any(&h) },
        }
    }
    pub fn count(&mut self) -> f64 {
        match self {
            Sk::PfA(s) => s.count(),
            Sk::PfB(s) => s.count(),
            #[cfg(feature = "std")]
            Sk::PlA(s) => s.count(),
            #[cfg(feature = "std")]
            Sk::PlB(s) => s.count(),
        }
    }
    /// None: not the same kind of sketch
    pub fn merge(&mut self, o: &Sk) -> Option<Result<(), &'static str>> {
        Some(match (self, o) {
            (Sk::PfA(a), Sk::PfA(b)) => a.merge(b).map_err(err_name),
            (Sk::PfA(a), Sk::PfB(b)) => a.merge(b).map_err(err_name),
            (Sk::PfB(a), Sk::PfA(b)) => a.merge(b).map_err(err_name),
            (Sk::PfB(a), Sk::PfB(b)) => a.merge(b).map_err(err_name),
            #[cfg(feature = "std")]
            (Sk::PlA(a), Sk::PlA(b)) => a.merge(b).map_err(err_name),
            #[cfg(feature = "std")]
            (Sk::PlA(a), Sk::PlB(b)) => a.merge(b).map_err(err_name),
            #[cfg(feature = "std")]
            (Sk::PlB(a), Sk::PlA(b)) => a.merge(b).map_err(err_name),
            #[cfg(feature = "std")]
            (Sk::PlB(a), Sk::PlB(b)) => a.merge(b).map_err(err_name),
            #[cfg(feature = "std")]
            _ => return None,
        })
    }
    pub fn state(&self, plus: bool, p: u8) -> State {
        match self {
            Sk::PfA(s) => state(s, plus, p),
            Sk::PfB(s) => state(s, plus, p),
            #[cfg(feature = "std")]
            Sk::PlA(s) => state(s, plus, p),
            #[cfg(feature = "std")]
            Sk::PlB(s) => state(s, plus, p),
        }
    }
}

// ------------------------------------------------------------------ model of a sketch
#[derive(Clone)]
pub struct Mod {
    pub plus: bool,
    pub p: u8,
    pub regs: Vec<u8>,
    pub codes: HashSet<u32, BuildHasherDefault<Mix>>,
    /// not tracked any more: known to be dense
    pub untracked: bool,
    pub forced: bool,
    pub merged: bool,
    pub dense_before: bool,
    pub inserted_dense: bool,
    pub hashes: Vec<u64>,
}
#[derive(Default, Clone)]
pub struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u32(&mut self, v: u32) { self.0 = (v as u64).wrapping_mul(0x9E3779B97F4A7C15); }
}
impl Mod {
    fn new(n: &New) -> Mod {
        Mod { plus: n.plus, p: n.p, regs: vec![0; 1 << n.p], codes: Default::default(), untracked: false, forced: false, merged: false, dense_before: false, inserted_dense: false, hashes: vec![] }
    }
    fn ins(&mut self, h: u64) {
        let (i, r) = if self.plus { (model::plus_idx(h, self.p), model::plus_rank(h, self.p)) } else { (model::pf_idx(h, self.p), model::pf_rank(h, self.p)) };
        self.regs[i] = self.regs[i].max(r as u8);
        if self.plus && !self.untracked { self.codes.insert(model::code(h, self.p)); }
        self.hashes.push(h);
    }
    fn sorted(&self) -> Vec<u32> { let mut v: Vec<u32> = self.codes.iter().copied().collect(); v.sort(); v }
}

#[derive(Clone, Debug)]
pub struct Fail { pub props: Vec<&'static str>, pub msg: String, pub op: usize }

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

struct Judge<'a> { prop: &'a str, fails: Vec<Fail>, op: usize, sub: String }
impl<'a> Judge<'a> {
    fn bad(&mut self, props: &[&'static str], msg: String) {
        self.fails.push(Fail { props: props.to_vec(), msg: format!("{}{}", msg, self.sub), op: self.op });
    }
    fn done(&self) -> bool { self.fails.iter().any(|f| f.props.contains(&self.prop)) }
}

fn diff_regs(a: &[u8], b: &[u8]) -> String {
    match (0..a.len().min(b.len())).find(|&i| a[i] != b[i]) { Some(i) => format!("register {} is {} and should be {}", i, a[i], b[i]), None => "different number of registers".into() }
}

/// judges the state of one sketch against the model
fn judge_state(j: &mut Judge, st: &State, m: &mut Mod, alt: bool, after_count: bool) {
    let want = if alt { serde_json::to_value(BuildB { name: "b".into() }) } else { serde_json::to_value(BuildA { tag: 7 }) }.unwrap();
    if let Some(b) = &st.builder { if *b != want { j.bad(&["C21", "C09", "C10"], format!("the hasher builder changed to {}", b)); } }
    if let Some(p) = st.precision { if p != m.p { j.bad(&["C09", "C10"], format!("the precision changed to {}", p)); } }
    match &st.repr {
        Repr::Unknown => {}
        Repr::Dense { regs, zeros, left } => {
            let mut at = vec![];
            if m.plus {
                at.extend(["C03"]);
                if !m.forced || m.dense_before { at.push("C05") }
                if !m.inserted_dense && !m.merged { at.push("C04") }
                if m.merged { at.push("C10") }
            } else {
                at.push("C02");
                if m.merged { at.push("C09") }
            }
            if *regs != m.regs { j.bad(&at, diff_regs(regs, &m.regs)); }
            let z = regs.iter().filter(|&&r| r == 0).count();
            if let Some(zz) = zeros { if *zz != z { j.bad(&["C08"], format!("the zero counter is {} and {} registers are zero", zz, z)); } }
            if let Some((t, s)) = left { if *t + *s > 0 { j.bad(&["C05", "C16"], format!("a dense sketch still has {} pending codes and {} bytes of stored codes", t, s)); } }
            if m.plus && !m.forced && !m.untracked {
                let s = model::enc_size(&m.sorted());
                if s <= model::budget(m.p) { j.bad(&["C16"], format!("dense although its {} codes take {} bytes of a budget of {}", m.codes.len(), s, model::budget(m.p))); }
            }
            m.dense_before = true;
            m.untracked = true;
            m.codes.clear();
        }
        Repr::Sparse { pending, stored, bytes, count } => {
            if m.dense_before { j.bad(&["C16", "C10"], "a dense sketch became sparse again".into()); }
            if m.forced { j.bad(&["C10"], "a dense sketch was merged in but the receiver is sparse".into()); }
            if bytes.len() > model::budget(m.p) { j.bad(&["C16"], format!("{} bytes of codes, budget {}", bytes.len(), model::budget(m.p))); }
            if pending.len() * 100 > model::budget(m.p) { j.bad(&["C16"], format!("{} pending codes, budget {} bytes", pending.len(), model::budget(m.p))); }
            if after_count && !pending.is_empty() { j.bad(&["C06"], format!("{} codes are pending after an estimate", pending.len())); }
            let mut c6 = vec!["C06"];
            if m.merged { c6.push("C10") }
            if let Some(k) = (1..stored.len()).find(|&k| stored[k - 1] >= stored[k]) { j.bad(&c6, format!("stored code {} is {:#x} after {:#x}", k, stored[k], stored[k - 1])); }
            if let Some(n) = count { if *n != stored.len() { j.bad(&["C06"], format!("the stored count is {} and {} codes are stored", n, stored.len())); } }
            if model::vint_encode(stored) != *bytes { j.bad(&["C07"], format!("the stored bytes are not the minimal encoding of the {} codes they decode to", stored.len())); }
            if !m.untracked {
                let mut all: Vec<u32> = pending.iter().chain(stored.iter()).copied().collect();
                all.sort();
                all.dedup();
                let want = m.sorted();
                if all != want {
                    let a: HashSet<u32> = all.iter().copied().collect();
                    let w: HashSet<u32> = want.iter().copied().collect();
                    let miss: Vec<String> = want.iter().filter(|c| !a.contains(c)).take(3).map(|c| format!("{:#x}", c)).collect();
                    let extra: Vec<String> = all.iter().filter(|c| !w.contains(c)).take(3).map(|c| format!("{:#x}", c)).collect();
                    let mut at = c6.clone();
                    // read back by the published rules: do the codes still say the right registers?
                    let mut r = vec![0u8; 1 << m.p];
                    for &c in &all { let (i, k) = (model::dec_idx(c, m.p), model::dec_rank(c, m.p)); r[i] = r[i].max(k as u8); }
                    if !m.merged && r != m.regs { at.push("C04") }
                    if vint_bad(bytes) { at.push("C07") }
                    j.bad(&at, format!("{} codes held and {} expected; missing {:?}, invented {:?}", all.len(), want.len(), miss, extra));
                }
            }
        }
    }
}
fn vint_bad(b: &[u8]) -> bool { model::vint_decode(b).is_none() }

/// estimate of a fresh sketch given the same set of hashes in another order, without merges
fn canonical(n: &New, hashes: &[u64]) -> f64 {
    let mut h = hashes.to_vec();
    h.sort();
    h.dedup();
    let mut s = Sk::new(n).ok().unwrap();
    for x in h { s.ins(x, 0); }
    s.count()
}

pub struct Stats { pub evals: u64, pub judged: u64 }

/// Runs a case; all failures that concern `prop` (the first ones suffice).
pub fn run(case: &Case, prop: &str, st: &mut Stats) -> Option<Fail> {
    let mut j = Judge { prop, fails: vec![], op: 0, sub: String::new() };
    let mut sks: Vec<Sk> = vec![];
    for n in &case.sketches {
        match Sk::new(n) {
            Ok(s) => sks.push(s),
            Err(e) => { j.bad(&["C01"], format!("a sketch of precision {} is refused: {}", n.p, e)); return j.fails.into_iter().find(|f| f.props.contains(&prop)); }
        }
    }
    let mut mods: Vec<Mod> = case.sketches.iter().map(Mod::new).collect();
    let mut ests: Vec<Option<f64>> = vec![None; sks.len()];
    for (k, op) in case.ops.iter().enumerate() {
        j.op = k;
        j.sub.clear();
        let touched;
        let mut after_count = false;
        let mut panicked: Option<(String, Vec<&'static str>)> = None;
        match op {
            Op::Ins { sk, how, run } => {
                let n = &case.sketches[*sk];
                let hs = run.hashes(n.plus, n.p);
                let each = hs.len() <= 96;
                let mut dense_now = mods[*sk].dense_before;
                for (i, h) in hs.iter().enumerate() {
                    let how = if *how == 3 { (i % 3) as u8 } else { *how };
                    let s = &mut sks[*sk];
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| s.ins(*h, how))) {
                        let t = if n.plus { vec!["C17", "C03", "C05", "C06", "C16"] } else { vec!["C17", "C02"] };
                        panicked = Some((format!("inserting a value with hash {:#018x} panicked: {}", h, panic_text(&e)), t));
                        break;
                    }
                    if dense_now { mods[*sk].inserted_dense = true; }
                    mods[*sk].ins(*h);
                    st.evals += 1;
                    if each && i + 1 < hs.len() && n.p <= 10 {
                        let s = sks[*sk].state(n.plus, n.p);
                        j.sub = format!(" (after value {} of the run, hash {:#018x})", i, h);
                        judge_state(&mut j, &s, &mut mods[*sk], n.alt, false);
                        dense_now = mods[*sk].dense_before;
                        j.sub.clear();
                        st.judged += 1;
                        if j.done() { break; }
                    }
                }
                // values may have gone in after the change of form inside the run
                if !each { mods[*sk].inserted_dense = true; }
                touched = *sk;
            }
            Op::Merge { dst, src } => {
                let (nd, ns) = (case.sketches[*dst].clone(), case.sketches[*src].clone());
                if nd.plus != ns.plus { continue; }
                let other = sks[*src].clone();
                let before = sks[*dst].state(nd.plus, nd.p);
                let src_dense = matches!(other.state(ns.plus, ns.p).repr, Repr::Dense { .. });
                let obefore = other.state(ns.plus, ns.p);
                let d = &mut sks[*dst];
                match catch_unwind(AssertUnwindSafe(|| d.merge(&other))) {
                    Err(e) => panicked = Some((format!("merge panicked: {}", panic_text(&e)), if nd.plus { vec!["C17", "C10", "C11"] } else { vec!["C17", "C09", "C11"] })),
                    Ok(None) => {}
                    Ok(Some(Ok(()))) if nd.p == ns.p => {
                        let o = mods[*src].clone();
                        let m = &mut mods[*dst];
                        m.merged = true;
                        for i in 0..m.regs.len() { m.regs[i] = m.regs[i].max(o.regs[i]); }
                        m.hashes.extend_from_slice(&o.hashes);
                        if m.plus {
                            if src_dense || o.forced { m.forced = true; }
                            if o.untracked { m.untracked = true; m.codes.clear(); }
                            if !m.untracked { m.codes.extend(o.codes.iter().copied()); }
                        }
                        if other.state(ns.plus, ns.p) != obefore { j.bad(&["C10", "C09"], "merging changed the other sketch".into()); }
                    }
                    Ok(Some(Ok(()))) => j.bad(&["C11"], format!("sketches of precision {} and {} were merged", nd.p, ns.p)),
                    Ok(Some(Err(e))) => {
                        if nd.p == ns.p { j.bad(&["C11", if nd.plus { "C10" } else { "C09" }], format!("merging sketches of precision {} fails with {}", nd.p, e)); }
                        if nd.p != ns.p && e != "IncompatiblePrecision" { j.bad(&["C11"], format!("merging precision {} into {} fails with {}", ns.p, nd.p, e)); }
                        if sks[*dst].state(nd.plus, nd.p) != before { j.bad(&["C11"], format!("a refused merge of precision {} into {} changed the receiver", ns.p, nd.p)); }
                    }
                }
                touched = *dst;
            }
            Op::Clone { dst, src } => {
                let (nd, ns) = (&case.sketches[*dst], &case.sketches[*src]);
                if nd.plus != ns.plus || nd.p != ns.p || nd.alt != ns.alt { continue; }
                sks[*dst] = sks[*src].clone();
                mods[*dst] = mods[*src].clone();
                ests[*dst] = ests[*src];
                touched = *dst;
            }
            Op::Count { sk } => {
                let n = &case.sketches[*sk];
                let s = &mut sks[*sk];
                let r = catch_unwind(AssertUnwindSafe(|| (s.count(), s.count())));
                match r {
                    Err(e) => panicked = Some((format!("the estimate panicked: {}", panic_text(&e)), if n.plus { vec!["C17", "C14", "C15", "C12"] } else { vec!["C17", "C13", "C12"] })),
                    Ok((a, b)) => {
                        if a.to_bits() != b.to_bits() && !(a.is_nan() && b.is_nan()) { j.bad(&["C12"], format!("two estimates in a row differ: {} and {}", a, b)); }
                        judge_est(&mut j, n, &sks[*sk], &mods[*sk], a);
                        if prop == "C12" && mods[*sk].hashes.len() <= 400_000 {
                            let m = &mods[*sk];
                            if let Ok(c) = catch_unwind(AssertUnwindSafe(|| canonical(n, &m.hashes))) {
                                if !(c == a || (c.is_nan() && a.is_nan()) || (c - a).abs() <= 1e-12 * c.abs().max(a.abs())) { j.bad(&["C12"], format!("the estimate is {} but {} when the same values are inserted in hash order into one new sketch", a, c)); }
                            }
                        }
                    }
                }
                after_count = true;
                touched = *sk;
            }
        }
        if let Some((msg, props)) = panicked { j.bad(&props, msg); break; }
        if j.done() { break; }
        let n = &case.sketches[touched];
        let s = sks[touched].state(n.plus, n.p);
        judge_state(&mut j, &s, &mut mods[touched], n.alt, after_count);
        st.judged += 1;
        if j.done() { break; }
    }
    j.fails.into_iter().find(|f| f.props.contains(&prop))
}

fn judge_est(j: &mut Judge, n: &New, sk: &Sk, m: &Mod, est: f64) {
    let st = sk.state(n.plus, n.p);
    let (want, at): (Vec<f64>, Vec<&'static str>) = if !n.plus {
        let regs = match &st.repr { Repr::Dense { regs, .. } => regs, _ => &m.regs };
        (model::classic(regs), vec!["C13"])
    } else {
        match &st.repr {
            Repr::Dense { regs, .. } => {
                let (w, c) = model::plus_dense(regs, n.p);
                (w, if c { vec!["C14", "C15"] } else { vec!["C14"] })
            }
            Repr::Sparse { pending, stored, .. } => {
                let mut a: Vec<u32> = pending.iter().chain(stored.iter()).copied().collect();
                a.sort();
                a.dedup();
                (vec![model::plus_sparse(a.len())], vec!["C14"])
            }
            Repr::Unknown => (vec![], vec!["C14"]),
        }
    };
    if m.hashes.is_empty() && !m.merged && est != 0.0 { j.bad(&["C01"], format!("the estimate of a new sketch of precision {} is {}", n.p, est)); }
    if est.is_nan() || (!want.is_empty() && !want.iter().any(|w| model::near(*w, est))) {
        j.bad(&at, format!("the estimate of a sketch of precision {} is {} and should be {:?}", n.p, est, want));
    }
}

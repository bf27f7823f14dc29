//! Copies of a sketch (by clone or through serialization) against the same
//! history without copying.
use crate::case::*;
use crate::gen;
#[cfg(feature = "std")]
use hyperloglogplus::HyperLogLogPlus;
use hyperloglogplus::HyperLogLogPF;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const FORMATS: u8 = 5;
const FROM: u8 = 200;
const NAMES: [&str; 5] = ["JSON", "a JSON value", "JSON with the fields in reverse", "bincode", "CBOR"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CopyOp {
    Ins { sk: usize, how: u8, run: Run },
    Merge { dst: usize, src: usize },
    Count { sk: usize },
    /// dst becomes a copy of src: format None is clone(), 200 clone_from
    Copy { dst: usize, src: usize, format: Option<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CopyCase { pub sketches: Vec<New>, pub copies: Vec<CopyOp> }

/// what a sketch has been through, copies left out
enum Past {
    New(New),
    Ins(Rc<Past>, u8, Run),
    Merge(Rc<Past>, Rc<Past>),
    Count(Rc<Past>),
}
fn build(p: &Past) -> (Sk, New) {
    match p {
        Past::New(n) => (Sk::new(n).ok().unwrap(), n.clone()),
        Past::Ins(a, how, run) => {
            let (mut s, n) = build(a);
            ins(&mut s, &n, *how, run);
            (s, n)
        }
        Past::Merge(a, b) => {
            let (mut s, n) = build(a);
            let (o, _) = build(b);
            let _ = s.merge(&o);
            (s, n)
        }
        Past::Count(a) => {
            let (mut s, n) = build(a);
            s.count();
            (s, n)
        }
    }
}
fn ins(s: &mut Sk, n: &New, how: u8, run: &Run) {
    for (k, h) in run.hashes(n.plus, n.p).into_iter().enumerate() {
        s.ins(h, if how > 2 { (k % 3) as u8 } else { how });
    }
}

fn back<T: Serialize + DeserializeOwned>(x: &T, format: u8) -> Result<T, String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    match format {
        0 => { let t = serde_json::to_string(x).map_err(|x| e(&x))?; serde_json::from_str(&t).map_err(|x| e(&x)) }
        1 => { let t = serde_json::to_value(x).map_err(|x| e(&x))?; serde_json::from_value(t).map_err(|x| e(&x)) }
        2 => {
            let t = serde_json::to_value(x).map_err(|x| e(&x))?;
            let mut s = String::new();
            reversed(&t, &mut s);
            serde_json::from_str(&s).map_err(|x| e(&x))
        }
        3 => { let t = bincode::serialize(x).map_err(|x| e(&x))?; bincode::deserialize(&t).map_err(|x| e(&x)) }
        _ => { let mut t = vec![]; ciborium::into_writer(x, &mut t).map_err(|x| e(&x))?; ciborium::from_reader(&t[..]).map_err(|x| e(&x)) }
    }
}
fn reversed(v: &serde_json::Value, out: &mut String) {
    match v {
        serde_json::Value::Object(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().rev().enumerate() {
                if i > 0 { out.push(',') }
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push(':');
                reversed(x, out);
            }
            out.push('}');
        }
        serde_json::Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { out.push(',') } reversed(x, out); }
            out.push(']');
        }
        x => out.push_str(&x.to_string()),
    }
}
impl Sk {
    fn from(&mut self, o: &Sk) {
        match (self, o) {
            (Sk::PfA(a), Sk::PfA(b)) => a.clone_from(b),
            (Sk::PfB(a), Sk::PfB(b)) => a.clone_from(b),
            #[cfg(feature = "std")]
            (Sk::PlA(a), Sk::PlA(b)) => a.clone_from(b),
            #[cfg(feature = "std")]
            (Sk::PlB(a), Sk::PlB(b)) => a.clone_from(b),
            _ => {}
        }
    }
    pub fn back(&self, format: u8) -> Result<Sk, String> {
        Ok(match self {
            Sk::PfA(s) => Sk::PfA(back::<HyperLogLogPF<u64, BuildA>>(s, format)?),
            Sk::PfB(s) => Sk::PfB(back::<HyperLogLogPF<W, BuildB>>(s, format)?),
            #[cfg(feature = "std")]
            Sk::PlA(s) => Sk::PlA(back::<HyperLogLogPlus<u64, BuildA>>(s, format)?),
            #[cfg(feature = "std")]
            Sk::PlB(s) => Sk::PlB(back::<HyperLogLogPlus<W, BuildB>>(s, format)?),
        })
    }
}

fn norm(r: &Repr) -> Repr {
    match r {
        Repr::Sparse { pending, stored, .. } => {
            let mut v: Vec<u32> = pending.iter().chain(stored.iter()).copied().collect();
            v.sort();
            v.dedup();
            Repr::Sparse { pending: vec![], stored: v, bytes: vec![], count: None }
        }
        Repr::Dense { regs, .. } => Repr::Dense { regs: regs.clone(), zeros: None, left: None },
        Repr::Unknown => Repr::Unknown,
    }
}
fn same_float(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

/// None: nothing found. The copies and the sketches without copies are compared
/// in everything that can be observed; what the library does is not judged.
pub fn run(c: &CopyCase, evals: &mut u64) -> Option<String> {
    let mut sks: Vec<Sk> = vec![];
    let mut past: Vec<Rc<Past>> = vec![];
    for n in &c.sketches {
        sks.push(Sk::new(n).ok()?);
        past.push(Rc::new(Past::New(n.clone())));
    }
    let mut copied = vec![false; sks.len()];
    let mut what = String::new();
    for (k, op) in c.copies.iter().enumerate() {
        *evals += 1;
        let mut est: Option<(usize, Result<f64, ()>)> = None;
        let before = past.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            match op {
                CopyOp::Ins { sk, how, run } => {
                    ins(&mut sks[*sk], &c.sketches[*sk], *how, run);
                    past[*sk] = Rc::new(Past::Ins(past[*sk].clone(), *how, run.clone()));
                }
                CopyOp::Merge { dst, src } if dst != src => {
                    past[*dst] = Rc::new(Past::Merge(past[*dst].clone(), past[*src].clone()));
                    let (d, s) = if dst < src { let (a, b) = sks.split_at_mut(*src); (&mut a[*dst], &b[0]) } else { let (a, b) = sks.split_at_mut(*dst); (&mut b[0], &a[*src]) };
                    let _ = d.merge(s);
                    copied[*dst] |= copied[*src];
                }
                CopyOp::Merge { .. } => {}
                CopyOp::Count { sk } => {
                    past[*sk] = Rc::new(Past::Count(past[*sk].clone()));
                    est = Some((*sk, Ok(sks[*sk].count())));
                }
                CopyOp::Copy { dst, src, format } => {
                    let (nd, ns) = (&c.sketches[*dst], &c.sketches[*src]);
                    if nd.plus != ns.plus || nd.p != ns.p || nd.alt != ns.alt { return None; }
                    what = match format { None => "clone".into(), Some(FROM) => "clone_from".into(), Some(f) => format!("serialization as {}", NAMES[*f as usize % 5]) };
                    let n = match format {
                        None => sks[*src].clone(),
                        Some(FROM) => { let s = sks[*src].clone(); let mut d = sks[*dst].clone(); d.from(&s); d }
                        Some(f) => match sks[*src].back(*f) { Ok(s) => s, Err(e) => return Some(format!("{} of a sketch of precision {}: {}", what, ns.p, e)) },
                    };
                    sks[*dst] = n;
                    past[*dst] = past[*src].clone();
                    copied[*dst] = true;
                    copied[*src] = true;
                }
            }
            None
        }));
        match r {
            Ok(Some(m)) => return Some(m),
            Ok(None) => {}
            Err(e) => {
                // does it panic without copies too?
                let i = match op { CopyOp::Ins { sk, .. } | CopyOp::Count { sk } => *sk, CopyOp::Merge { dst, .. } | CopyOp::Copy { dst, .. } => *dst };
                let m = format!("operation {} panics after {}: {}", k, what, panic_text(&e));
                let same = catch_unwind(AssertUnwindSafe(|| match op {
                    CopyOp::Ins { how, run, .. } => { build(&Past::Ins(before[i].clone(), *how, run.clone())); }
                    CopyOp::Merge { dst, src } => { build(&Past::Merge(before[*dst].clone(), before[*src].clone())); }
                    CopyOp::Count { sk } => { build(&Past::Count(before[*sk].clone())); }
                    CopyOp::Copy { .. } => {}
                }));
                if same.is_err() { return None; }
                return Some(m);
            }
        }
        for i in 0..sks.len() {
            let asked = est.map_or(false, |e| e.0 == i);
            if !copied[i] || !(asked || Rc::ptr_eq(&past[i], &before[i]) == false || matches!(op, CopyOp::Copy { src, .. } if *src == i)) { continue; }
            let n = &c.sketches[i];
            let want = catch_unwind(AssertUnwindSafe(|| match (&*past[i], asked) {
                (Past::Count(p), true) => { let (mut s, _) = build(p); let e = s.count(); (Some(e), s.state(n.plus, n.p)) }
                (p, _) => (None, build(p).0.state(n.plus, n.p)),
            }));
            let Ok((e, want)) = want else { return None };
            if let (Some((_, Ok(a))), Some(b), true) = (est, e, asked) {
                if !same_float(a, b) { return Some(format!("after {}, the estimate of a {} sketch of precision {} is {} and without it {}", what, if n.plus { "HyperLogLogPlus" } else { "HyperLogLogPF" }, n.p, a, b)); }
            }
            let got = sks[i].state(n.plus, n.p);
            if got.builder != want.builder { return Some(format!("after {} the hasher builder is {:?} and without it {:?}", what, got.builder, want.builder)); }
            if got.precision != want.precision { return Some(format!("after {} the precision is {:?} and without it {:?}", what, got.precision, want.precision)); }
            if got.repr != Repr::Unknown && want.repr != Repr::Unknown {
                let (a, b) = (norm(&got.repr), norm(&want.repr));
                let forms = matches!(a, Repr::Dense { .. }) != matches!(b, Repr::Dense { .. });
                if a != b && (!forms || asked) { return Some(format!("after {} a {} sketch of precision {} does not hold what it holds without it (operation {})", what, if n.plus { "HyperLogLogPlus" } else { "HyperLogLogPF" }, n.p, k)); }
            }
        }
    }
    None
}

pub fn case(prop: &str, rng: &mut Rng) -> CopyCase {
    let std = cfg!(feature = "std");
    let plus = std && !rng.chance(3);
    let p = match rng.below(6) { 0 => rng.range(4, if plus { 18 } else { 16 }) as u8, 1 | 2 => 4 + rng.below(3) as u8, _ => rng.range(4, 10) as u8 };
    let k = rng.range(2, 3) as usize;
    let alt = rng.chance(3);
    let sketches: Vec<New> = (0..k).map(|_| New { plus, p, alt }).collect();
    let mut copies = vec![];
    let few = |rng: &mut Rng| { let n = rng.range(1, 9); Run::List((0..n).map(|_| gen::hash(rng, plus, p)).collect()) };
    for _ in 0..rng.range(2, 9) {
        let sk = rng.below(k as u64) as usize;
        let other = (sk + rng.range(1, k as u64 - 1) as usize) % k;
        match rng.below(10) {
            0 | 1 => { let run = gen::any_run(rng, plus, p); copies.push(CopyOp::Ins { sk, how: rng.below(4) as u8, run }) }
            2 => { let run = few(rng); copies.push(CopyOp::Ins { sk, how: 0, run }) }
            3 => copies.push(CopyOp::Merge { dst: sk, src: other }),
            4 => copies.push(CopyOp::Count { sk }),
            _ => {
                let format = if prop == "C23" { if rng.chance(4) { Some(FROM) } else { None } } else { Some(rng.below(FORMATS as u64) as u8) };
                copies.push(CopyOp::Copy { dst: if rng.chance(2) { sk } else { other }, src: sk, format });
                if rng.chance(2) { let run = few(rng); copies.push(CopyOp::Ins { sk, how: 0, run }) }
                if rng.chance(3) { copies.push(CopyOp::Count { sk }) }
            }
        }
    }
    for sk in 0..k {
        if rng.chance(2) { let run = few(rng); copies.push(CopyOp::Ins { sk, how: 0, run }) }
        if rng.chance(4) { copies.push(CopyOp::Merge { dst: sk, src: (sk + 1) % k }) }
        copies.push(CopyOp::Count { sk });
    }
    CopyCase { sketches, copies }
}

pub fn smaller(c: &CopyCase) -> Vec<CopyCase> {
    let with = |copies: Vec<CopyOp>| CopyCase { sketches: c.sketches.clone(), copies };
    let mut out = vec![];
    for i in (0..c.copies.len()).rev() {
        let mut v = c.copies.clone();
        v.remove(i);
        out.push(with(v));
    }
    for i in 0..c.copies.len() {
        if let CopyOp::Ins { sk, how, run } = &c.copies[i] {
            let n = &c.sketches[*sk];
            let l = match run { Run::List(l) => l.clone(), r => { let h = r.hashes(n.plus, n.p); if h.len() > 300 { continue; } h } };
            if l.len() < 2 { continue; }
            for part in [l[..l.len() / 2].to_vec(), l[l.len() / 2..].to_vec(), l[..l.len() - 1].to_vec(), l[1..].to_vec()] {
                let mut v = c.copies.clone();
                v[i] = CopyOp::Ins { sk: *sk, how: *how, run: Run::List(part) };
                out.push(with(v));
            }
        }
    }
    out
}

//! Checks that are not histories of one hasher: construction, and the ways of inserting.
use crate::case::*;
use hyperloglogplus::{HyperLogLog, HyperLogLogPF};
#[cfg(feature = "std")]
use hyperloglogplus::HyperLogLogPlus;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hash, Hasher};

/// every precision: refused or not, the error, and the estimate of the new sketch
pub fn construction() -> (u64, Option<(String, serde_json::Value)>) {
    let mut n = 0;
    for plus in [false, true] {
        if plus && !cfg!(feature = "std") { continue; }
        for p in 0..=255u8 {
            n += 1;
            let ok = p >= 4 && p <= if plus { 18 } else { 16 };
            let spec = New { plus, p, alt: false };
            let got = match std::panic::catch_unwind(|| match Sk::new(&spec) { Ok(mut s) => Ok((s.state(plus, p.min(18)), s.count(), s.count())), Err(e) => Err(e) }) { Ok(g) => g, Err(e) => return (n, Some((format!("precision {}: panic: {}", p, panic_text(&e)), serde_json::json!({"construct": spec})))) };
            let msg = match got {
                Ok((st, a, b)) => {
                    let mut m = String::new();
                    if !ok { m = format!("precision {} is accepted", p) }
                    else if a != 0.0 || b != 0.0 { m = format!("precision {}: the estimate of the new sketch is {} (then {})", p, a, b) }
                    else {
                        match st.repr {
                            Repr::Dense { regs, .. } => if plus { m = format!("precision {}: a new sketch is dense", p) } else if regs.iter().any(|r| *r != 0) || regs.len() != 1 << p { m = format!("precision {}: a register of the new sketch is not zero", p) },
                            Repr::Sparse { pending, stored, .. } => if pending.len() + stored.len() > 0 { m = format!("precision {}: a new sketch has codes", p) },
                            Repr::Unknown => {}
                        }
                    }
                    m
                }
                Err(e) => if ok { format!("precision {} is refused with {}", p, e) } else if e != "InvalidPrecision" { format!("precision {} is refused with {}", p, e) } else { String::new() },
            };
            if !msg.is_empty() { return (n, Some((format!("{}: {}", if plus { "HyperLogLogPlus" } else { "HyperLogLogPF" }, msg), serde_json::json!({"construct": spec})))); }
        }
    }
    (n, None)
}

/// a keyed hasher: every byte matters, and so does the kind of write
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Keyed { pub key: u64 }
#[derive(Clone)]
pub struct KeyedHasher(u64);
impl Hasher for KeyedHasher {
    fn finish(&self) -> u64 { let mut r = Rng(self.0); r.next() ^ r.next().rotate_left(17) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5).wrapping_add(0x9e37); } }
}
impl BuildHasher for Keyed { type Hasher = KeyedHasher; fn build_hasher(&self) -> KeyedHasher { KeyedHasher(self.key) } }
fn hash_of<T: Hash + ?Sized>(b: &Keyed, v: &T) -> u64 { let mut h = b.build_hasher(); v.hash(&mut h); h.finish() }

macro_rules! ways {
    ($n:ident, $owned:ty, $bor:ty, $fail:ident, $b:expr, $p:expr, $ty:ident, $plus:expr, $vals:expr, $others:expr) => {{
        let vals: Vec<$owned> = $vals;
        let mk = || $ty::<$owned, Keyed>::new($p, $b.clone()).unwrap();
        let (mut a, mut b, mut c, mut d, mut e) = (mk(), mk(), mk(), mk(), mk());
        // the reference: the hashes themselves, through a hasher that passes them on
        let mut r = Sk::new(&New { plus: $plus, p: $p, alt: false }).unwrap();
        let (mut x, mut rx) = (mk(), Sk::new(&New { plus: $plus, p: $p, alt: false }).unwrap());
        for v in &vals {
            a.insert::<$owned>(v);
            #[allow(deprecated)]
            b.add(v);
            c.insert_any(v);
            d.insert::<$bor>(std::borrow::Borrow::borrow(v));
            e.insert_any::<$bor>(std::borrow::Borrow::borrow(v));
            r.ins(hash_of(&$b, v), 0);
        }
        for (k, o) in $others.iter().enumerate() {
            match k % 3 {
                0 => { let t = (k as u32, *o); x.insert_any(&t); rx.ins(hash_of(&$b, &t), 0); }
                1 => { let t = format!("{}", o); x.insert_any(t.as_str()); rx.ins(hash_of(&$b, t.as_str()), 0); }
                _ => { let t = [*o as u8, k as u8, 3]; x.insert_any(&t[..]); rx.ins(hash_of(&$b, &t[..]), 0); }
            }
            $n += 1;
        }
        $n += vals.len() as u64;
        let want = r.state($plus, $p).repr;
        let of = |s: &$ty<$owned, Keyed>| serde_state(s, $plus, $p);
        for (name, got) in [("insert", of(&a)), ("add", of(&b)), ("insert_any", of(&c)), ("insert of the borrowed form", of(&d)), ("insert_any of the borrowed form", of(&e))] {
            if got.1 != Repr::Unknown && want != Repr::Unknown && norm(&got.1) != norm(&want) { $fail = Some(format!("{} on a {} of precision {} with values {:?} does not record the hash of the value", name, stringify!($ty), $p, &vals[..vals.len().min(6)])); }
            if let Some(bb) = got.0 { if bb != serde_json::to_value(&$b).unwrap() { $fail = Some(format!("{} changed the hasher builder", name)); } }
        }
        let got = of(&x);
        let want = rx.state($plus, $p).repr;
        if got.1 != Repr::Unknown && want != Repr::Unknown && norm(&got.1) != norm(&want) { $fail = Some(format!("insert_any of values of other types into a {} of precision {} does not record their hashes", stringify!($ty), $p)); }
        let mut es = vec![a.count(), b.count(), c.count(), d.count(), e.count()];
        es.push(r.count());
        if es.iter().any(|v| v.to_bits() != es[0].to_bits()) { $fail = Some(format!("estimates differ between the ways of inserting: {:?} ({} of precision {})", es, stringify!($ty), $p)); }
    }};
}
fn norm(r: &Repr) -> Repr {
    match r {
        Repr::Sparse { pending, stored, .. } => { let mut v: Vec<u32> = pending.iter().chain(stored.iter()).copied().collect(); v.sort(); v.dedup(); Repr::Sparse { pending: vec![], stored: v, bytes: vec![], count: None } }
        Repr::Dense { regs, .. } => Repr::Dense { regs: regs.clone(), zeros: None, left: None },
        Repr::Unknown => Repr::Unknown,
    }
}
fn serde_state<T: Serialize>(s: &T, plus: bool, p: u8) -> (Option<serde_json::Value>, Repr) { let st = state(s, plus, p); (st.builder, st.repr) }

pub fn ways(seed: u64) -> (u64, Option<String>) {
    let mut rng = Rng(seed);
    let mut n = 0u64;
    let mut fail: Option<String> = None;
    let b = Keyed { key: rng.next() };
    let p = rng.range(4, 9) as u8;
    let k = rng.pick(&[1u64, 3, 20, 300]);
    let strs: Vec<String> = (0..k).map(|_| { let l = rng.below(12); (0..l).map(|_| (b'a' + rng.below(26) as u8) as char).collect() }).collect();
    let bytes: Vec<Vec<u8>> = (0..k).map(|_| { let l = rng.below(12); (0..l).map(|_| rng.next() as u8).collect() }).collect();
    let nums: Vec<u64> = (0..k).map(|_| rng.next() >> rng.below(60)).collect();
    let others: Vec<u64> = (0..k).map(|_| rng.next()).collect();
    ways!(n, String, str, fail, b, p, HyperLogLogPF, false, strs.clone(), others);
    ways!(n, Vec<u8>, [u8], fail, b, p, HyperLogLogPF, false, bytes.clone(), others);
    ways!(n, u64, u64, fail, b, p, HyperLogLogPF, false, nums.clone(), others);
    #[cfg(feature = "std")]
    {
        ways!(n, String, str, fail, b, p, HyperLogLogPlus, true, strs.clone(), others);
        ways!(n, Vec<u8>, [u8], fail, b, p, HyperLogLogPlus, true, bytes.clone(), others);
        ways!(n, u64, u64, fail, b, p, HyperLogLogPlus, true, nums.clone(), others);
    }
    // merging a sketch with another key keeps the receiver's own
    {
        let mut a = HyperLogLogPF::<String, Keyed>::new(p, b.clone()).unwrap();
        let mut o = HyperLogLogPF::<u64, Keyed>::new(p, Keyed { key: b.key ^ 1 }).unwrap();
        for v in &nums { o.insert(v) }
        a.merge(&o).unwrap();
        if let Some(bb) = serde_state(&a, false, p).0 { if bb != serde_json::to_value(&b).unwrap() { fail = Some("merging changed the hasher builder (HyperLogLogPF)".into()); } }
    }
    #[cfg(feature = "std")]
    {
        let mut a = HyperLogLogPlus::<String, Keyed>::new(p, b.clone()).unwrap();
        let mut o = HyperLogLogPlus::<u64, Keyed>::new(p, Keyed { key: b.key ^ 1 }).unwrap();
        for v in &nums { o.insert(v) }
        a.merge(&o).unwrap();
        if let Some(bb) = serde_state(&a, true, p).0 { if bb != serde_json::to_value(&b).unwrap() { fail = Some("merging changed the hasher builder (HyperLogLogPlus)".into()); } }
    }
    (n, fail)
}

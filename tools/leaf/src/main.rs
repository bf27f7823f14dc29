//! The leaf modules of /repo compiled from their own source files, and called
//! directly: packed registers, the difference encoding, the logarithm.
//!
//! leaf PROP --seconds N --seed S --out FILE | leaf --replay FILE
#![allow(dead_code, unused_imports)]
#[path = "/repo/src/common.rs"]
mod common;
#[path = "/repo/src/encoding.rs"]
mod encoding;
#[path = "/repo/src/log.rs"]
mod log;
#[path = "../../finder/src/tables.rs"]
mod tables;
#[path = "../../finder/src/model.rs"]
mod model;

use common::{Registers, RegistersPlus};
use encoding::DifIntVec;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// pushes; None: clear
    Dif(Vec<Option<u32>>),
    /// width 5 or 6, number of registers, updates
    Regs(u8, usize, Vec<(usize, u32)>),
    /// bits of the argument
    Log(u64),
}

fn dif(ops: &[Option<u32>]) -> Result<(), String> {
    let mut v = DifIntVec::new();
    let mut want: Vec<u32> = vec![];
    for o in ops {
        match o {
            Some(x) => { v.push(*x); want.push(*x) }
            None => { v.clear(); want.clear() }
        }
        if v.count() != want.len() { return Err(format!("count() is {} after {} numbers", v.count(), want.len())); }
    }
    let enc = model::vint_encode(&want);
    if v.len() != enc.len() { return Err(format!("{} bytes are stored where {} are needed", v.len(), enc.len())); }
    let got: Vec<u32> = (&v).into_iter().take(want.len() + 2).collect();
    if got != want { return Err(format!("{:x?} is read back as {:x?}", want, got)); }
    let j = serde_json::to_value(&v).unwrap();
    if let Some(b) = j.get("buf").and_then(|b| serde_json::from_value::<Vec<u8>>(b.clone()).ok()) {
        if b != enc { return Err(format!("{:x?} is stored as {:x?} and not {:x?}", want, b, enc)); }
    }
    Ok(())
}

macro_rules! regs {
    ($t:ident, $n:expr, $ups:expr) => {{
        let n: usize = $n;
        let mut r = $t::with_count(n);
        let mut want = vec![0u32; n];
        let check = |r: &$t, want: &[u32], what: &str| -> Result<(), String> {
            let z = want.iter().filter(|v| **v == 0).count();
            if r.zeros() != z { return Err(format!("{}: zeros() is {} and {} registers are zero", what, r.zeros(), z)); }
            let got: Vec<u32> = r.iter().take(n + 2).collect();
            if got != want { return Err(format!("{}: iterating gives {:?} instead of {:?}", what, got, want)); }
            Ok(())
        };
        check(&r, &want, "new")?;
        for (k, (i, v)) in $ups.iter().enumerate() {
            r.set_greater(*i, *v);
            want[*i] = want[*i].max(*v);
            if n <= 64 { check(&r, &want, &format!("after update {}: register {}, value {}", k, i, v))?; }
        }
        check(&r, &want, "at the end")?;
        for i in 0..n { if r.get(i) != want[i] { return Err(format!("get({}) is {} instead of {}", i, r.get(i), want[i])); } }
        Ok(())
    }};
}

fn logs(bits: u64) -> Result<(), String> {
    let x = f64::from_bits(bits);
    let (got, want) = (log::log(x), model::fd_log(x));
    if got.to_bits() != want.to_bits() && !(got.is_nan() && want.is_nan()) { return Err(format!("log({:e}) is {:e} ({:#x}) and not {:e} ({:#x})", x, got, got.to_bits(), want, want.to_bits())); }
    Ok(())
}

fn judge(c: &Case) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| match c {
        Case::Dif(v) => dif(v),
        Case::Regs(5, n, u) => regs!(Registers, *n, u),
        Case::Regs(_, n, u) => regs!(RegistersPlus, *n, u),
        Case::Log(b) => logs(*b),
    }));
    match r { Ok(x) => x, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}

fn number(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => { let k = [0u64, 1, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, 4294967295]; k[r.below(13) as usize] as u32 }
        1 => (1u64 << r.below(32)) as u32,
        2 => r.below(300) as u32,
        _ => (r.next() >> (32 + r.below(32))) as u32,
    }
}
fn gen(prop: &str, r: &mut Rng) -> Case {
    let k = match prop { "C07" | "C06" => 0, "C08" => 1, "C20" | "C19" => 2, _ => r.below(2) };
    match k {
        0 => {
            let mut v = vec![];
            let mut last = 0u32;
            for _ in 0..r.below(12) {
                if r.below(15) == 0 { v.push(None); last = 0; continue; }
                let d = number(r);
                last = if r.below(9) == 0 { last } else { match last.checked_add(d) { Some(x) => x, None => if r.below(2) == 0 { u32::MAX } else { last } } };
                v.push(Some(last));
            }
            Case::Dif(v)
        }
        1 => {
            let w = if r.below(2) == 0 { 5u8 } else { 6 };
            let n = match r.below(5) { 0 => 16, 1 => 1 + r.below(40), 2 => 32, 3 => 64, _ => 1 + r.below(300) } as usize;
            let top = (1u64 << w) - 1;
            let mut u = vec![];
            for _ in 0..r.below(60) {
                let i = if r.below(4) == 0 { n - 1 - (r.below(7) as usize).min(n - 1) } else { r.below(n as u64) as usize };
                let v = match r.below(5) { 0 => top, 1 => r.below(3), 2 => 1u64 << r.below(w as u64), _ => r.below(top + 1) };
                u.push((i, v as u32));
            }
            Case::Regs(w, n, u)
        }
        _ => Case::Log(match r.below(8) {
            0 => r.next(),
            1 => (1.0f64 + (r.below(2_000_001) as f64 - 1e6) * 1e-9).to_bits(),
            2 => { let k = [0u64, 1 << 63, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x3ff0_0000_0000_0000, 1, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 0x3fe6_a09e_0000_0000, 0x3fe6_a09d_ffff_ffff, 0x3fe6_a09f_0000_0000, 0x4350_0000_0000_0000, 0x3ff0_0000_0000_0001, 0x3fef_ffff_ffff_ffff, 0x3ff6_a09e_0000_0000]; k[r.below(17) as usize] }
            3 => r.next() & 0x800f_ffff_ffff_ffff,
            4 => { let m = (1u64 << (4 + r.below(15))) as f64; (m / (1 + r.below(m as u64)) as f64).to_bits() }
            5 => (r.next() & 0x000f_ffff_ffff_ffff) | (r.below(2047) << 52),
            6 => (r.below(1 << 53) as f64 / (1u64 << 53) as f64).to_bits(),
            _ => ((r.below(0x7ff) << 52) | (0x6a09c + r.below(5)) << 32 | r.below(1 << 32)),
        }),
    }
}
fn smaller(c: &Case) -> Vec<Case> {
    match c {
        Case::Dif(v) => (0..v.len()).map(|i| { let mut w = v.clone(); w.remove(i); Case::Dif(w) }).collect(),
        Case::Regs(w, n, u) => (0..u.len()).map(|i| { let mut x = u.clone(); x.remove(i); Case::Regs(*w, *n, x) }).collect(),
        Case::Log(_) => vec![],
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(f) = opt("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let c: Case = serde_json::from_value(v["leaf"].clone()).unwrap();
        match judge(&c) { Err(m) => { println!("FAILS: {}", m); std::process::exit(1) } Ok(()) => println!("passes") }
        return;
    }
    let prop = args[0].clone();
    let seconds: f64 = opt("--seconds").map_or(3.0, |s| s.parse().unwrap());
    let mut r = Rng(opt("--seed").map_or(1, |s| s.parse().unwrap()));
    let out = opt("--out").unwrap_or("leaf.json".into());
    let (tx, rx) = std::sync::mpsc::channel::<(u64, Option<(Case, String)>, Option<Case>)>();
    let t0 = Instant::now();
    let slot = std::sync::Arc::new(std::sync::Mutex::new((Instant::now(), None::<Case>)));
    let s2 = slot.clone();
    let p2 = prop.clone();
    std::thread::spawn(move || {
        let mut n = 0;
        loop {
            let c = gen(&p2, &mut r);
            *s2.lock().unwrap() = (Instant::now(), Some(c.clone()));
            n += 1;
            if let Err(mut m) = judge(&c) {
                let mut c = c;
                'again: loop {
                    for s in smaller(&c) { if let Err(e) = judge(&s) { c = s; m = e; continue 'again; } }
                    break;
                }
                let _ = tx.send((n, Some((c, m)), None));
                return;
            }
            if t0.elapsed().as_secs_f64() > seconds { let _ = tx.send((n, None, Some(c))); return; }
        }
    });
    let (n, f, sample) = loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(x) => break x,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                let s = slot.lock().unwrap();
                if s.0.elapsed().as_secs() > 10 { break (1, s.1.clone().map(|c| (c, "the call does not end (10 s)".to_string())), None); }
            }
            Err(_) => break (0, None, None),
        }
    };
    let failure = f.map(|(c, m)| serde_json::json!({"message": m, "leaf": c, "property": prop}));
    std::fs::write(&out, serde_json::to_string_pretty(&serde_json::json!({"property": prop, "evaluations": n, "seconds": t0.elapsed().as_secs_f64(), "failure": failure, "samples": [sample]})).unwrap()).unwrap();
    std::process::exit(0);
}

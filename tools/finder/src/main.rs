//! finder PROP --seconds N --seed S --out FILE     look for a failing case
//! finder --replay FILE                            run a case again
//! finder --tables META.json                       compare the extracted tables with the published ones
mod case;
mod copies;
mod gen;
mod model;
mod special;
mod tables;
use case::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Slot { since: Instant, case: Option<String> }

fn features() -> Vec<&'static str> {
    let mut v = vec![];
    if cfg!(feature = "std") { v.push("std") }
    if cfg!(feature = "alloc") { v.push("alloc") }
    if cfg!(feature = "const-loop") { v.push("const-loop") }
    v
}
fn report(out: &str, v: serde_json::Value) {
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(f) = opt("--tables") { tables_check(&f); return; }
    if let Some(f) = opt("--replay") { replay(&f); return; }
    let prop = args[0].clone();
    let seconds: f64 = opt("--seconds").map_or(5.0, |s| s.parse().unwrap());
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let out = opt("--out").unwrap_or("finder.json".into());
    let threads: usize = opt("--threads").map_or(8, |s| s.parse().unwrap());
    let (evals, judged, cases) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<serde_json::Value>> = Mutex::new(None);
    let sample: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let slots: Vec<Mutex<Slot>> = (0..threads).map(|_| Mutex::new(Slot { since: Instant::now(), case: None })).collect();
    let t0 = Instant::now();
    let finish = |found: Option<serde_json::Value>| {
        report(&out, serde_json::json!({
            "property": prop, "seed": seed, "features": features(), "cases": cases.load(SeqCst), "evaluations": evals.load(SeqCst), "judged": judged.load(SeqCst),
            "seconds": t0.elapsed().as_secs_f64(), "samples": *sample.lock().unwrap(), "failure": found}));
    };
    // once, exhaustively
    if ["C01", "C17", "C19"].contains(&prop.as_str()) {
        let (n, f) = special::construction();
        evals.fetch_add(n, SeqCst);
        cases.fetch_add(n, SeqCst);
        if let Some((msg, c)) = f { if prop != "C17" || msg.contains("panic") {
            finish(Some(serde_json::json!({"message": msg, "case": c, "features": features(), "property": prop})));
            return;
        } }
    }
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (prop, stop, found, slots, evals, judged, cases, sample) = (&prop, &stop, &found, &slots, &evals, &judged, &cases, &sample);
            sc.spawn(move || {
                let mut rng = Rng(seed.wrapping_mul(0x1000193).wrapping_add(t as u64 * 7919 + 1));
                for _ in 0..t { rng.next(); }
                let mut st = Stats { evals: 0, judged: 0 };
                while !stop.load(SeqCst) {
                    cases.fetch_add(1, SeqCst);
                    if prop == "C21" && rng.chance(2) {
                        let s = rng.next();
                        let r = std::panic::catch_unwind(|| special::ways(s));
                        let (n, f) = match r { Ok(x) => x, Err(e) => (1, Some(format!("panic: {}", panic_text(&e)))) };
                        st.evals += n;
                        if let Some(msg) = f {
                            *found.lock().unwrap() = Some(serde_json::json!({"message": msg, "case": {"ways": s}, "features": features(), "property": prop}));
                            stop.store(true, SeqCst);
                        }
                        continue;
                    }
                    if prop == "C18" || prop == "C23" {
                        let c = copies::case(prop, &mut rng);
                        {
                            let mut s = slots[t].lock().unwrap();
                            s.since = Instant::now();
                            s.case = Some(serde_json::to_string(&c).unwrap());
                        }
                        let mut n = 0;
                        let f = copies::run(&c, &mut n);
                        slots[t].lock().unwrap().case = None;
                        evals.fetch_add(n, SeqCst);
                        judged.fetch_add(n, SeqCst);
                        if t == 0 {
                            let mut s = sample.lock().unwrap();
                            if s.len() < 2 { let v = serde_json::to_value(&c).unwrap(); if v.to_string().len() < 1500 { s.push(v) } }
                        }
                        if let Some(f) = f {
                            if stop.swap(true, SeqCst) { break; }
                            let (c, f) = shrink_copies(c, f);
                            *found.lock().unwrap() = Some(serde_json::json!({"message": f, "case": c, "features": features(), "property": prop}));
                        }
                        continue;
                    }
                    let c = gen::case(prop, &mut rng);
                    {
                        let mut s = slots[t].lock().unwrap();
                        s.since = Instant::now();
                        s.case = Some(serde_json::to_string(&c).unwrap());
                    }
                    let f = run(&c, prop, &mut st);
                    slots[t].lock().unwrap().case = None;
                    evals.fetch_add(st.evals, SeqCst);
                    judged.fetch_add(st.judged, SeqCst);
                    st = Stats { evals: 0, judged: 0 };
                    if t == 0 {
                        let mut s = sample.lock().unwrap();
                        if s.len() < 2 { let v = serde_json::to_value(&c).unwrap(); if v.to_string().len() < 1500 { s.push(v) } }
                    }
                    if let Some(f) = f {
                        if stop.swap(true, SeqCst) { break; }
                        let (c, f) = shrink(c, f, prop);
                        *found.lock().unwrap() = Some(serde_json::json!({"message": f.msg, "op": f.op, "case": c, "features": features(), "property": prop}));
                    }
                }
                evals.fetch_add(st.evals, SeqCst);
            });
        }
        // watchdog: a case that does not end
        while !stop.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(50));
            if t0.elapsed().as_secs_f64() > seconds { stop.store(true, SeqCst); }
            for s in &slots {
                let s = s.lock().unwrap();
                if let Some(c) = &s.case {
                    if s.since.elapsed().as_secs() > 40 {
                        finish(Some(serde_json::json!({"message": "an operation of this history does not end (40 s)", "case": serde_json::from_str::<serde_json::Value>(c).unwrap(), "features": features(), "property": prop, "hang": true})));
                        std::process::exit(0);
                    }
                }
            }
        }
        // time is up: a thread may still be in a case; wait for it, but not for ever
        let t1 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let busy = slots.iter().any(|s| s.lock().unwrap().case.is_some());
            if !busy { break; }
            if t1.elapsed().as_secs() > 45 {
                if let Some(c) = slots.iter().find_map(|s| s.lock().unwrap().case.clone()) {
                    if found.lock().unwrap().is_none() {
                        finish(Some(serde_json::json!({"message": "an operation of this history does not end (45 s)", "case": serde_json::from_str::<serde_json::Value>(&c).unwrap(), "features": features(), "property": prop, "hang": true})));
                    }
                }
                std::process::exit(0);
            }
        }
    });
    let f = found.lock().unwrap().take();
    finish(f);
}

fn shrink(mut c: Case, mut f: Fail, prop: &str) -> (Case, Fail) {
    let t0 = Instant::now();
    let mut st = Stats { evals: 0, judged: 0 };
    'again: loop {
        for s in gen::smaller(&c, f.op) {
            if t0.elapsed().as_secs() > 8 { return (c, f); }
            if let Some(g) = run(&s, prop, &mut st) { c = s; f = g; continue 'again; }
        }
        return (c, f);
    }
}

fn shrink_copies(mut c: copies::CopyCase, mut f: String) -> (copies::CopyCase, String) {
    let t0 = Instant::now();
    'again: loop {
        for s in copies::smaller(&c) {
            if t0.elapsed().as_secs() > 8 { return (c, f); }
            if let Some(g) = copies::run(&s, &mut 0) { c = s; f = g; continue 'again; }
        }
        return (c, f);
    }
}

fn replay(f: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let v = v.get("failure").cloned().unwrap_or(v);
    let prop = v["property"].as_str().unwrap_or("C17").to_string();
    let c = &v["case"];
    let msg = if c.get("construct").is_some() { special::construction().1.map(|x| x.0) }
    else if let Some(s) = c.get("ways") {
        let s = s.as_u64().unwrap();
        match std::panic::catch_unwind(|| special::ways(s)) { Ok(x) => x.1, Err(e) => Some(format!("panic: {}", panic_text(&e))) }
    }
    else if c.get("copies").is_some() {
        let c: copies::CopyCase = serde_json::from_value(c.clone()).unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let _ = tx.send(copies::run(&c, &mut 0)); });
        match rx.recv_timeout(Duration::from_secs(45)) { Ok(m) => m, Err(_) => Some("the history does not end".into()) }
    }
    else {
        let c: Case = serde_json::from_value(c.clone()).unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let _ = tx.send(run(&c, &prop, &mut Stats { evals: 0, judged: 0 }).map(|f| f.msg)); });
        match rx.recv_timeout(Duration::from_secs(45)) { Ok(m) => m, Err(_) => Some("the history does not end".into()) }
    };
    match msg { Some(m) => { println!("FAILS: {}", m); std::process::exit(1) } None => println!("passes") }
}

fn tables_check(f: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let mut bad = vec![];
    for (name, want) in [("RAW_ESTIMATE_DATA", tables::RAW_ESTIMATE_DATA), ("BIAS_DATA", tables::BIAS_DATA)] {
        let Some(got) = v["tables"].get(name).and_then(|t| t.as_array()) else { bad.push(serde_json::json!({"table": name, "missing": true})); continue };
        if got.len() != want.len() { bad.push(serde_json::json!({"table": name, "rows": got.len(), "should_be": want.len()})); }
        for (i, row) in want.iter().enumerate() {
            let Some(g) = got.get(i).and_then(|r| r.as_array()) else { continue };
            if g.len() != row.len() { bad.push(serde_json::json!({"table": name, "precision": i + 4, "entries": g.len(), "should_be": row.len()})); }
            for (k, w) in row.iter().enumerate() {
                if let Some(x) = g.get(k).and_then(|x| x.as_u64()) { if x != w.to_bits() { bad.push(serde_json::json!({"table": name, "precision": i + 4, "entry": k, "is": f64::from_bits(x), "published": w})); } }
            }
        }
    }
    // what axiom_tables assumes: 15 rows, of equal lengths from 2 on, estimates in [1, 2^21], no two neighbours equal, biases within 2^21
    let mut shape = vec![];
    let row = |n: &str, i: usize| -> Option<Vec<f64>> { v["tables"].get(n)?.as_array()?.get(i)?.as_array()?.iter().map(|x| x.as_u64().map(f64::from_bits)).collect() };
    for n in ["RAW_ESTIMATE_DATA", "BIAS_DATA"] { if v["tables"].get(n).and_then(|t| t.as_array()).map(|t| t.len()) != Some(15) { shape.push(format!("{} has not 15 rows", n)); } }
    for i in 0..15 {
        let (Some(e), Some(b)) = (row("RAW_ESTIMATE_DATA", i), row("BIAS_DATA", i)) else { shape.push(format!("row {} not readable", i)); continue };
        if e.len() < 2 || e.len() != b.len() { shape.push(format!("row {}: lengths {} and {}", i, e.len(), b.len())); }
        if !e.iter().all(|x| (1.0..=2097152.0).contains(x)) { shape.push(format!("row {}: estimates out of range", i)); }
        if !b.iter().all(|x| (-2097152.0..=2097152.0).contains(x)) { shape.push(format!("row {}: biases out of range", i)); }
        if e.windows(2).any(|w| w[0] == w[1]) { shape.push(format!("row {}: equal neighbours", i)); }
    }
    println!("{}", serde_json::json!({"bad": bad, "shape": shape}));
}

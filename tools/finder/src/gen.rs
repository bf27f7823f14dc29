//! Generators of cases.
use crate::case::*;

pub fn hash(rng: &mut Rng, plus: bool, p: u8) -> u64 {
    let m = 1u64 << p;
    let w: u64 = (if plus { 64 } else { 32 }) - p as u64;
    match rng.below(12) {
        0 => rng.next(),
        1 => rng.pick(&[0, u64::MAX, 1, 1 << 63, 0xffff_ffff, 0xffff_ffff_0000_0000, 0x8000_0000]),
        2 => 1u64 << rng.below(64),
        3 => !(1u64 << rng.below(64)),
        4 => u64::MAX << rng.below(64),
        5 if plus => {
            // around the end of the 25 bits of a code
            let idx = rng.below(m);
            let rank = rng.range(24 - p as u64, 28 - p as u64) as u32;
            with_rank(true, p, idx, rank, rng)
        }
        _ => {
            let idx = match rng.below(6) { 0 => 0, 1 => m - 1, 2 => 1, 3 => m / 2, _ => rng.below(m) };
            let rank = match rng.below(7) { 0 => 1, 1 => w + 1, 2 => w, 3 => 2, 4 => rng.range(1, 4), _ => rng.range(1, w + 1) };
            with_rank(plus, p, idx, rank as u32, rng)
        }
    }
}
fn max_rank(plus: bool, p: u8) -> u32 { (if plus { 65u32 } else { 33u32 }) - p as u32 }
fn ranks(rng: &mut Rng, plus: bool, p: u8) -> (u32, u32) {
    let top = max_rank(plus, p) as u64;
    match rng.below(6) {
        0 => (1, 1),
        1 => (1, 4),
        2 => { let a = rng.range(1, top); (a as u32, a as u32) }
        3 => { let a = rng.range(1, top); let b = rng.range(a, top); (a as u32, b as u32) }
        4 => (top as u32 - 1, top as u32),
        _ => { let a = rng.range(1, top.min(8)); (a as u32, (a + 1).min(top) as u32) }
    }
}
fn prec(rng: &mut Rng, plus: bool) -> u8 {
    let top = if plus { 18 } else { 16 };
    match rng.below(8) { 0 => top, 1 => 4, 2 => 5, 3 => rng.range(4, top as u64) as u8, 4 => rng.range(8, 13) as u8, _ => rng.range(4, 9) as u8 }
}
pub fn any_run(rng: &mut Rng, plus: bool, p: u8) -> Run {
    let m = 1u64 << p;
    match rng.below(10) {
        0..=3 => { let n = rng.range(1, 30); Run::List((0..n).map(|_| hash(rng, plus, p)).collect()) }
        4 => { let n = rng.pick(&[3, m / 50 + 1, m / 4, m, 4 * m]); Run::Uniform { seed: rng.next(), n: n.min(600_000) } }
        5 => { let (lo, hi) = ranks(rng, plus, p); Run::Fill { seed: rng.next(), a: 0, b: m, lo, hi } }
        6 => { let (lo, hi) = ranks(rng, plus, p); let a = rng.below(m); let b = rng.range(a, m); Run::Fill { seed: rng.next(), a, b, lo, hi } }
        7 => { let (lo, hi) = ranks(rng, plus, p); Run::Some { seed: rng.next(), n: rng.range(1, m), lo, hi } }
        _ if plus => codes_run(rng, p),
        _ => { let n = rng.range(1, 60); Run::List((0..n).map(|_| hash(rng, plus, p)).collect()) }
    }
}
fn codes_run(rng: &mut Rng, p: u8) -> Run {
    let m = 1u64 << p;
    let n = rng.pick(&[2, 5, m / 100 + 2, m / 5, m / 2, m]).clamp(1, 300_000);
    let gap = rng.pick(&[1, 2, 32, 63, 64, 65, 100, 1000, 8191, 8192, 8193, 1 << 20, 1 << 22]);
    Run::Codes { seed: rng.next(), n, gap, odd: rng.pick(&[0, 0, 1, 2, 5]) }
}
fn dedup_run(rng: &mut Rng, r: &Run, plus: bool, p: u8) -> Run {
    // values already present, and values that differ only below the recorded bits
    match r {
        Run::List(v) if !v.is_empty() => Run::List(v.iter().map(|h| if plus && rng.chance(3) { h ^ (rng.next() & 0xff) } else if !plus { (h & 0xffff_ffff) | rng.next() << 32 } else { *h }).collect()),
        _ => { let _ = p; r.clone() }
    }
}

pub fn history(rng: &mut Rng, plus: bool, merges: bool, light: bool) -> Case {
    let p = if light { rng.range(4, 7) as u8 } else { prec(rng, plus) };
    let k = if merges { rng.range(2, 4) } else { rng.range(1, 2) } as usize;
    let sketches: Vec<New> = (0..k).map(|_| New { plus, p, alt: merges && rng.chance(3) }).collect();
    let mut ops = vec![];
    let big = p > 13;
    let n = if big { rng.range(1, 4) } else { rng.range(1, 12) };
    let mut last: Option<Run> = None;
    for _ in 0..n {
        let sk = rng.below(k as u64) as usize;
        match rng.below(if merges { 10 } else { 7 }) {
            0..=3 => {
                let run = match &last { Some(r) if rng.chance(6) => dedup_run(rng, r, plus, p), _ => any_run(rng, plus, p) };
                last = Some(run.clone());
                ops.push(Op::Ins { sk, how: rng.below(4) as u8, run });
            }
            4 | 5 => ops.push(Op::Count { sk }),
            6 => ops.push(Op::Clone { dst: sk, src: rng.below(k as u64) as usize }),
            _ => ops.push(Op::Merge { dst: sk, src: rng.below(k as u64) as usize }),
        }
    }
    for sk in 0..k { ops.push(Op::Count { sk }) }
    Case { sketches, ops }
}

/// many single insertions in a small sketch, to meet every boundary of the budget
pub fn boundary(rng: &mut Rng, merges: bool) -> Case {
    let p = rng.pick(&[4u8, 4, 5, 5, 6, 7, 8]);
    let k = if merges { 2 } else { 1 };
    let mut ops = vec![];
    for sk in 0..k {
        let mut left = crate::model::budget(p) as i64;
        let mut v = vec![];
        let mode = rng.below(4);
        let mut idx = rng.below(1 << 25);
        let n = rng.range(1, 40);
        while left > -10 && (v.len() as u64) < n {
            let h = match mode {
                0 => hash(rng, true, p),
                1 => { idx = (idx + rng.pick(&[1, 2, 31, 32, 63, 64])) & 0x1ff_ffff; (idx << 39) | (rng.next() >> 25) }
                2 => { idx = (idx + rng.pick(&[1, 64, 8191, 8192, 1 << 20])) & 0x1ff_ffff; (idx << 39) | (rng.next() >> 25) }
                _ => { let a = rng.below(1 << p); with_rank(true, p, a, rng.range(1, 61) as u32, rng) }
            };
            v.push(h);
            left -= 1;
            if mode != 1 { left -= 1 }
        }
        if rng.chance(2) { for i in (1..v.len()).rev() { let j = rng.below(i as u64 + 1) as usize; v.swap(i, j); } }
        ops.push(Op::Ins { sk, how: 3, run: Run::List(v) });
    }
    if merges { ops.push(Op::Merge { dst: 0, src: 1 }); }
    ops.push(Op::Count { sk: 0 });
    Case { sketches: (0..k).map(|i| New { plus: true, p, alt: i == 1 && rng.chance(2) }).collect(), ops }
}

/// a dense sketch, its estimate taken again and again while registers rise
pub fn walk(rng: &mut Rng, plus: bool) -> Case {
    let p = if plus { rng.range(4, 18) } else { rng.range(4, 16) } as u8;
    let p = if p > 12 && rng.chance(2) { rng.range(4, 12) as u8 } else { p };
    let m = 1u64 << p;
    let top = max_rank(plus, p);
    let mut ops = vec![];
    let seed = |r: &mut Rng| r.next();
    match rng.below(4) {
        0 => {
            // the number of zero registers around the limit of linear counting
            let z = if plus { m as f64 * (-crate::model::threshold(p) / m as f64).exp() } else { m as f64 * rng.range(1, 60) as f64 / 100.0 };
            let k = (m as f64 - z) as i64;
            let span = (m / 64).clamp(3, 40) as i64;
            let a = (k - span).clamp(0, m as i64) as u64;
            let (lo, hi) = ranks(rng, plus, p);
            ops.push(Op::Ins { sk: 0, how: 0, run: Run::Fill { seed: seed(rng), a: 0, b: a, lo, hi } });
            for i in 0..(2 * span) as u64 {
                ops.push(Op::Ins { sk: 0, how: 0, run: Run::Fill { seed: seed(rng), a: a + i, b: a + i + 1, lo, hi } });
                ops.push(Op::Count { sk: 0 });
            }
        }
        1 | 2 => {
            // through the range of the raw estimate
            let r0 = rng.pick(&[0u64, 1, 1, 2, 3]);
            let steps = if p > 14 { 24 } else { 60 };
            let fill = if r0 == 0 { m / 2 } else { m };
            ops.push(Op::Ins { sk: 0, how: 0, run: Run::Fill { seed: seed(rng), a: 0, b: fill, lo: r0.max(1) as u32, hi: r0.max(1) as u32 } });
            if r0 == 0 && rng.chance(2) { ops.push(Op::Ins { sk: 0, how: 0, run: Run::Uniform { seed: seed(rng), n: m / 2 } }); }
            for _ in 0..steps {
                let hi = (r0 as u32 + rng.range(1, 4) as u32).min(top);
                ops.push(Op::Ins { sk: 0, how: 0, run: Run::Some { seed: seed(rng), n: (m * 5 / 2 / steps).max(1), lo: 1, hi } });
                ops.push(Op::Count { sk: 0 });
            }
        }
        _ => {
            // everywhere, up to the largest ranks
            let steps = if p > 14 { 12 } else { 30 };
            let mut r = 1u32;
            while r <= top {
                ops.push(Op::Ins { sk: 0, how: 0, run: Run::Fill { seed: seed(rng), a: 0, b: rng.pick(&[m, m, m, m - 1, m / 2 + 1]), lo: r, hi: (r + 1).min(top) } });
                ops.push(Op::Count { sk: 0 });
                r += (top / steps).max(1);
            }
            ops.push(Op::Ins { sk: 0, how: 0, run: Run::Fill { seed: seed(rng), a: 0, b: m, lo: top, hi: top } });
            ops.push(Op::Count { sk: 0 });
        }
    }
    Case { sketches: vec![New { plus, p, alt: false }], ops }
}

/// sketches of different precisions
pub fn mixed(rng: &mut Rng) -> Case {
    let plus = cfg!(feature = "std") && rng.chance(2);
    let top = if plus { 18 } else { 16 };
    let k = 3usize;
    let hi0 = if rng.chance(3) { top } else { 10 };
    let p0 = rng.range(4, hi0) as u8;
    let sketches: Vec<New> = (0..k).map(|i| {
        let p = match i { 0 => p0, 1 => match rng.below(4) { 0 => p0, 1 => (p0 + 1).min(top as u8), 2 => (p0 - 1).max(4), _ => rng.range(4, 12) as u8 }, _ => rng.range(4, 10) as u8 };
        New { plus, p, alt: rng.chance(2) }
    }).collect();
    let mut ops = vec![];
    for sk in 0..k {
        if rng.chance(4) { continue; }
        ops.push(Op::Ins { sk, how: 3, run: any_run(rng, plus, sketches[sk].p) });
    }
    for _ in 0..rng.range(1, 5) {
        ops.push(Op::Merge { dst: rng.below(k as u64) as usize, src: rng.below(k as u64) as usize });
        if rng.chance(3) { ops.push(Op::Count { sk: rng.below(k as u64) as usize }) }
    }
    for sk in 0..k { ops.push(Op::Count { sk }) }
    Case { sketches, ops }
}

/// merges of every combination of forms, around the change of form
pub fn merges(rng: &mut Rng, plus: bool) -> Case {
    let p = if plus { rng.pick(&[4u8, 5, 6, 7, 8, 9, 10, 11, 12, 14]) } else { rng.range(4, 12) as u8 };
    let k = rng.range(2, 3) as usize;
    let m = 1u64 << p;
    let sketches: Vec<New> = (0..k).map(|_| New { plus, p, alt: rng.chance(3) }).collect();
    let mut ops = vec![];
    for sk in 0..k {
        let run = match rng.below(7) {
            0 => continue,
            1 => { let n = rng.range(1, 6); Run::List((0..n).map(|_| hash(rng, plus, p)).collect()) }
            2 => { let (lo, hi) = ranks(rng, plus, p); Run::Fill { seed: rng.next(), a: 0, b: m, lo, hi } }
            3 => Run::Uniform { seed: rng.next(), n: rng.pick(&[m / 100 + 1, m / 8 + 1, m / 3 + 1, m * 2]) },
            4 if plus => codes_run(rng, p),
            _ => { let (lo, hi) = ranks(rng, plus, p); Run::Some { seed: rng.next(), n: rng.range(1, m / 3 + 1), lo, hi } }
        };
        ops.push(Op::Ins { sk, how: rng.below(4) as u8, run });
        if rng.chance(3) { ops.push(Op::Count { sk }) }
        if rng.chance(3) { let n = rng.range(1, 4); ops.push(Op::Ins { sk, how: 0, run: Run::List((0..n).map(|_| hash(rng, plus, p)).collect()) }) }
    }
    for _ in 0..rng.range(1, 4) {
        let (dst, src) = (rng.below(k as u64) as usize, rng.below(k as u64) as usize);
        ops.push(Op::Merge { dst, src });
        if rng.chance(3) { ops.push(Op::Merge { dst, src }) }
        if rng.chance(3) { ops.push(Op::Count { sk: dst }) }
        if rng.chance(3) { let n = rng.range(1, 8); ops.push(Op::Ins { sk: dst, how: 0, run: Run::List((0..n).map(|_| hash(rng, plus, p)).collect()) }) }
    }
    for sk in 0..k { ops.push(Op::Count { sk }) }
    Case { sketches, ops }
}

/// many pending codes of random sizes in sketches with room for them
pub fn pending(rng: &mut Rng, merge: bool) -> Case {
    let p = rng.range(8, 18) as u8;
    let mut ops = vec![];
    let k = if merge { 2 } else { 1 };
    for sk in 0..k {
        for _ in 0..rng.range(1, 3) {
            let lim = crate::model::budget(p) as u64 / 100;
            let n = rng.pick(&[1, 2, lim.max(1), lim + 1, lim / 2 + 1, 2 * lim + 1]);
            let run = if rng.chance(2) { Run::Uniform { seed: rng.next(), n } } else { let c = codes_run(rng, p); match c { Run::Codes { seed, gap, odd, .. } => Run::Codes { seed, gap, odd, n }, x => x } };
            ops.push(Op::Ins { sk, how: 0, run });
        }
        if rng.chance(2) { ops.push(Op::Count { sk }) }
        if rng.chance(2) { let n9 = rng.range(1, 9); ops.push(Op::Ins { sk, how: 0, run: Run::List((0..n9).map(|_| hash(rng, true, p)).collect()) }) }
    }
    if merge { ops.push(Op::Merge { dst: 0, src: 1 }) }
    if rng.chance(2) { ops.push(Op::Count { sk: 0 }) }
    Case { sketches: (0..k).map(|i| New { plus: true, p, alt: i == 1 && rng.chance(2) }).collect(), ops }
}

pub fn case(prop: &str, rng: &mut Rng) -> Case {
    let std = cfg!(feature = "std");
    let any = |rng: &mut Rng| std && !rng.chance(3);
    match prop {
        "C01" => { let plus = any(rng); Case { sketches: vec![New { plus, p: rng.range(4, if plus { 18 } else { 16 }) as u8, alt: false }], ops: vec![Op::Count { sk: 0 }] } }
        "C02" => { let l = rng.chance(2); history(rng, false, false, l) }
        "C03" | "C05" => match rng.below(6) { 0 => boundary(rng, false), 1 => pending(rng, false), 2 => merges(rng, true), _ => { let l = rng.chance(2); history(rng, true, false, l) } },
        "C04" => match rng.below(4) { 0 => boundary(rng, false), 1 => pending(rng, false), _ => { let p = rng.range(4, 18) as u8; let n = rng.range(1, 40); Case { sketches: vec![New { plus: true, p, alt: false }], ops: vec![Op::Ins { sk: 0, how: 0, run: Run::List((0..n).map(|_| hash(rng, true, p)).collect()) }, Op::Count { sk: 0 }] } } },
        "C06" | "C07" | "C16" => match rng.below(5) { 0 => boundary(rng, true), 1 => boundary(rng, false), 2 => pending(rng, true), 3 => pending(rng, false), _ => history(rng, true, true, false) },
        "C08" => { let plus = any(rng); match rng.below(3) { 0 => merges(rng, plus), _ => { let l = rng.chance(2); history(rng, plus, false, l) } } }
        "C09" => match rng.below(2) { 0 => merges(rng, false), _ => history(rng, false, true, false) },
        "C10" => match rng.below(5) { 0 => boundary(rng, true), 1 => pending(rng, true), 2 => history(rng, true, true, false), _ => merges(rng, true) },
        "C11" => mixed(rng),
        "C13" => if rng.chance(5) { history(rng, false, true, false) } else { walk(rng, false) },
        "C14" | "C15" => match rng.below(8) { 0 => history(rng, true, false, false), 1 => pending(rng, false), _ => walk(rng, true) },
        _ => {
            let plus = any(rng);
            match rng.below(6) {
                0 => walk(rng, plus),
                1 if std => boundary(rng, true),
                2 if std => pending(rng, true),
                3 => merges(rng, plus),
                4 => mixed(rng),
                _ => { let l = rng.chance(2); history(rng, plus, true, l) }
            }
        }
    }
}

/// smaller cases to try when one fails
pub fn smaller(c: &Case, op: usize) -> Vec<Case> {
    let mut out = vec![];
    let with = |ops: Vec<Op>| Case { sketches: c.sketches.clone(), ops };
    if op + 1 < c.ops.len() { out.push(with(c.ops[..=op].to_vec())) }
    for i in 0..c.ops.len() { let mut o = c.ops.clone(); o.remove(i); out.push(with(o)); }
    for (i, o) in c.ops.iter().enumerate() {
        let set = |run: Run| { let mut v = c.ops.clone(); if let Op::Ins { sk, how, .. } = o { v[i] = Op::Ins { sk: *sk, how: *how, run }; } with(v) };
        if let Op::Ins { sk, run, .. } = o {
            let n = &c.sketches[*sk];
            match run {
                Run::List(v) => {
                    let l = v.len();
                    if l > 1 {
                        let mut k = l / 2;
                        while k >= 1 {
                            let mut s = 0;
                            while s < l { let mut w = v[..s].to_vec(); w.extend_from_slice(&v[(s + k).min(l)..]); out.push(set(Run::List(w))); s += k; }
                            if k == 1 || l > 64 && k < l / 16 { break; }
                            k /= 2;
                        }
                    }
                }
                _ => {
                    let h = run.hashes(n.plus, n.p);
                    if h.len() <= 3000 { out.push(set(Run::List(h))) }
                    else {
                        // halves
                        match run {
                            Run::Uniform { seed, n } => out.push(set(Run::Uniform { seed: *seed, n: n / 2 })),
                            Run::Fill { seed, a, b, lo, hi } => { out.push(set(Run::Fill { seed: *seed, a: *a, b: (a + b) / 2, lo: *lo, hi: *hi })); out.push(set(Run::Fill { seed: *seed, a: (a + b) / 2, b: *b, lo: *lo, hi: *hi })); }
                            Run::Some { seed, n, lo, hi } => out.push(set(Run::Some { seed: *seed, n: n / 2, lo: *lo, hi: *hi })),
                            Run::Codes { seed, n, gap, odd } => out.push(set(Run::Codes { seed: *seed, n: n / 2, gap: *gap, odd: *odd })),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    out
}

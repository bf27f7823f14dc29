//! Independent model: a sketch is the set of hashes that went into it.
use crate::tables::{BIAS_DATA, RAW_ESTIMATE_DATA};

pub fn pf_idx(h: u64, p: u8) -> usize { ((h & 0xffff_ffff) as usize) >> (32 - p as usize) }
pub fn pf_rank(h: u64, p: u8) -> u32 {
    let w = 32 - p as u32;
    let rest = (h & 0xffff_ffff) & ((1u64 << w) - 1);
    for k in 0..w { if rest >> (w - 1 - k) & 1 == 1 { return k + 1; } }
    w + 1
}
pub fn plus_idx(h: u64, p: u8) -> usize { (h >> (64 - p as u32)) as usize }
pub fn plus_rank(h: u64, p: u8) -> u32 {
    let w = 64 - p as u32;
    for k in 0..w { if h >> (w - 1 - k) & 1 == 1 { return k + 1; } }
    w + 1
}
/// the published sparse code (p' = 25)
pub fn code(h: u64, p: u8) -> u32 {
    let idx25 = h >> 39;
    let mid = if p == 25 { 0 } else { idx25 & ((1u64 << (25 - p as u64)) - 1) };
    if mid == 0 {
        let mut z = 40u32;
        for k in 0..39 { if h >> (38 - k) & 1 == 1 { z = k + 1; break; } }
        ((idx25 as u32) << 7) | (z << 1) | 1
    } else {
        (idx25 as u32) << 1
    }
}
pub fn dec_idx(c: u32, p: u8) -> usize {
    let idx25 = if c & 1 == 1 { c >> 7 } else { c >> 1 };
    ((idx25 & 0x1ff_ffff) >> (25 - p as u32)) as usize
}
pub fn dec_rank(c: u32, p: u8) -> u32 {
    let w = 25 - p as u32;
    if c & 1 == 1 { return ((c >> 1) & 0x3f) + w; }
    let idx25 = c >> 1;
    for k in 0..w { if idx25 >> (w - 1 - k) & 1 == 1 { return k + 1; } }
    w + 1
}
pub fn vint_len(v: u32) -> usize { match v { 0..=0x7f => 1, 0x80..=0x3fff => 2, 0x4000..=0x1f_ffff => 3, 0x20_0000..=0xfff_ffff => 4, _ => 5 } }
pub fn enc_size(sorted: &[u32]) -> usize {
    let mut last = 0;
    let mut n = 0;
    for &c in sorted { n += vint_len(c - last); last = c; }
    n
}
pub fn vint_encode(sorted: &[u32]) -> Vec<u8> {
    let (mut last, mut out) = (0u32, vec![]);
    for &c in sorted {
        let mut d = c.wrapping_sub(last);
        last = c;
        while d >= 128 { out.push((d & 127) as u8 | 128); d >>= 7; }
        out.push(d as u8);
    }
    out
}
pub fn vint_decode(b: &[u8]) -> Option<Vec<u32>> {
    let (mut out, mut last, mut v, mut s) = (vec![], 0u64, 0u64, 0u32);
    for &x in b {
        if s > 28 { return None; }
        v |= ((x & 127) as u64) << s;
        if x & 128 != 0 { s += 7; continue; }
        last += v;
        if last > u32::MAX as u64 { return None; }
        out.push(last as u32);
        v = 0;
        s = 0;
    }
    if s == 0 { Some(out) } else { None }
}
pub fn budget(p: u8) -> usize { 4 * (1usize << p) / 5 }

// ---------------------------------------------------------------- estimates
pub fn alpha(m: usize) -> f64 {
    match m { 16 => 0.673, 32 => 0.697, 64 => 0.709, _ => 0.7213 / (1.0 + 1.079 / m as f64) }
}
pub fn raw(regs: &[u8]) -> f64 {
    // exact sum of powers of two, in units of 2^-64
    let mut s: u128 = 0;
    for &r in regs { s += 1u128 << (64 - (r as u32).min(64)); }
    let m = regs.len() as f64;
    alpha(regs.len()) * m * m / (s as f64 / (1u128 << 64) as f64)
}
pub fn lin(m: f64, z: f64) -> f64 { m * (m / z).ln() }
pub fn near(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-9
}
/// All acceptable classic estimates (more than one only within rounding of a limit).
pub fn classic(regs: &[u8]) -> Vec<f64> {
    let m = regs.len() as f64;
    let z = regs.iter().filter(|&&r| r == 0).count();
    let e = raw(regs);
    let two32 = 4294967296.0;
    // ill-conditioned: the logarithm of almost zero is not judged
    if e > two32 * (1.0 - 1e-5) && e < two32 * (1.0 + 1e-9) { return vec![]; }
    let edge = |lim: f64| (e - lim).abs() <= 1e-9 * lim;
    let mut out = vec![];
    let small = |out: &mut Vec<f64>| out.push(lin(m, z as f64));
    let rest = |out: &mut Vec<f64>| {
        if e > two32 / 30.0 || edge(two32 / 30.0) { out.push(-two32 * (1.0 - e.min(two32) / two32).ln()) }
        if e <= two32 / 30.0 || edge(two32 / 30.0) { out.push(e) }
    };
    if z != 0 && (e <= 2.5 * m || edge(2.5 * m)) { small(&mut out) }
    if z == 0 || e > 2.5 * m || edge(2.5 * m) { rest(&mut out) }
    out
}
pub fn threshold(p: u8) -> f64 {
    [10.0, 20.0, 40.0, 80.0, 220.0, 400.0, 900.0, 1800.0, 3100.0, 6500.0, 11500.0, 20000.0, 50000.0, 120000.0, 350000.0][p as usize - 4]
}
pub fn biases(p: u8, e: f64) -> Vec<f64> {
    let (est, bias) = (RAW_ESTIMATE_DATA[p as usize - 4], BIAS_DATA[p as usize - 4]);
    let n = est.len();
    let mut out = vec![];
    if e <= est[0] { out.push(bias[0]) }
    if e >= est[n - 1] { out.push(bias[n - 1]) }
    if out.is_empty() {
        for i in 1..n {
            if est[i - 1] <= e && e <= est[i] && est[i - 1] < est[i] {
                out.push(bias[i - 1] + (e - est[i - 1]) / (est[i] - est[i - 1]) * (bias[i] - bias[i - 1]));
            }
        }
    }
    out
}
/// Acceptable estimates of a dense HyperLogLog++ sketch; true if bias correction is involved.
pub fn plus_dense(regs: &[u8], p: u8) -> (Vec<f64>, bool) {
    let m = regs.len() as f64;
    let z = regs.iter().filter(|&&r| r == 0).count();
    let mut out = vec![];
    let mut corrected = false;
    let l = lin(m, z as f64);
    let t = threshold(p);
    let at_t = z != 0 && (l - t).abs() <= 1e-9 * t;
    if z != 0 && (l <= t || at_t) { out.push(l) }
    if z == 0 || l > t || at_t {
        let e = raw(regs);
        let at_e = (e - 5.0 * m).abs() <= 5e-9 * m;
        if e <= 5.0 * m || at_e { corrected = true; for b in biases(p, e) { out.push(e - b) } }
        if e > 5.0 * m || at_e { out.push(e) }
    }
    (out, corrected)
}
pub fn plus_sparse(n: usize) -> f64 {
    let m = (1u64 << 25) as f64;
    lin(m, m - n as f64)
}

/// The published e_log.c, written down independently.
pub fn fd_log(x: f64) -> f64 {
    let (ln2_hi, ln2_lo) = (f64::from_bits(0x3fe62e42_fee00000), f64::from_bits(0x3dea39ef_35793c76));
    let lg = [0x3FE5555555555593u64, 0x3FD999999997FA04, 0x3FD2492494229359, 0x3FCC71C51D8E78AF, 0x3FC7466496CB03DE, 0x3FC39A09D078C69F, 0x3FC2F112DF3E5244].map(f64::from_bits);
    if x.is_nan() { return x; }
    if x == 0.0 { return f64::NEG_INFINITY; }
    if x < 0.0 { return f64::NAN; }
    if x == f64::INFINITY { return x; }
    if x == 1.0 { return 0.0; }
    let (mut y, mut k) = (x, 0i64);
    if y < f64::MIN_POSITIVE { y *= 18014398509481984.0; k = -54; }
    let b = y.to_bits() as i64;
    let hx = (b >> 32) + (0x3ff00000 - 0x3fe6a09e);
    k += (hx >> 20) - 0x3ff;
    let hx = (hx & 0xfffff) + 0x3fe6a09e;
    let y = f64::from_bits(((hx as u64) << 32) | (b as u64 & 0xffff_ffff));
    let f = y - 1.0;
    let hfsq = 0.5 * f * f;
    let s = f / (2.0 + f);
    let z = s * s;
    let w = z * z;
    let t1 = w * (lg[1] + w * (lg[3] + w * lg[5]));
    let t2 = z * (lg[0] + w * (lg[2] + w * (lg[4] + w * lg[6])));
    let r = t2 + t1;
    let dk = k as f64;
    s * (hfsq + r) + dk * ln2_lo - hfsq + f + dk * ln2_hi
}

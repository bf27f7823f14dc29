// ===================================================================
// the natural logarithm of the no_std build: FreeBSD's e_log.c, stated
// over the f64 operations
// ===================================================================
//@if log
pub open spec fn hi32(b: u64) -> int { b as int / 0x1_0000_0000 }
pub open spec fn lo32(b: u64) -> int { b as int % 0x1_0000_0000 }
// x = 2^k (1 + f) with sqrt(2)/2 < 1 + f < sqrt(2)
pub open spec fn fd_core(x: F64, k: int) -> F64 {
    let h = hi32(f_bits(x)) + (0x3ff0_0000 - 0x3fe6_a09e);
    let dk = f_int(k + h / 0x10_0000 - 0x3ff);
    let y = f_lit(((h % 0x10_0000 + 0x3fe6_a09e) * 0x1_0000_0000 + lo32(f_bits(x))) as u64);
    let f = f_sub(y, f_lit(0x3ff0_0000_0000_0000));
    let hfsq = f_mul(f_mul(f_lit(0x3fe0_0000_0000_0000), f), f);
    let s = f_div(f, f_add(f_lit(0x4000_0000_0000_0000), f));
    let z = f_mul(s, s);
    let w = f_mul(z, z);
    // Lg2, Lg4, Lg6 and Lg1, Lg3, Lg5, Lg7
    let t1 = f_mul(w, f_add(f_lit(0x3fd9_9999_9997_fa04), f_mul(w, f_add(f_lit(0x3fcc_71c5_1d8e_78af), f_mul(w, f_lit(0x3fc3_9a09_d078_c69f))))));
    let t2 = f_mul(z, f_add(f_lit(0x3fe5_5555_5555_5593), f_mul(w, f_add(f_lit(0x3fd2_4924_9422_9359), f_mul(w, f_add(f_lit(0x3fc7_4664_96cb_03de), f_mul(w, f_lit(0x3fc2_f112_df3e_5244))))))));
    let r = f_add(t2, t1);
    // s (hfsq + R) + k ln2_lo - hfsq + f + k ln2_hi
    f_add(f_add(f_sub(f_add(f_mul(s, f_add(hfsq, r)), f_mul(dk, f_lit(0x3dea_39ef_3579_3c76))), hfsq), f), f_mul(dk, f_lit(0x3fe6_2e42_fee0_0000)))
}
pub open spec fn fd_log(x: F64) -> F64 {
    let b = f_bits(x);
    if b == 0 || b == 0x8000_0000_0000_0000 { f_div(f_lit(0xbff0_0000_0000_0000), f_mul(x, x)) }    // +-0: -1 / (x x)
    else if b >= 0x8000_0000_0000_0000 { f_div(f_sub(x, x), f_lit(0)) }                            // negative: (x - x) / 0
    else if b < 0x0010_0000_0000_0000 { fd_core(f_mul(x, f_lit(0x4350_0000_0000_0000)), -54) }     // subnormal: scaled by 2^54
    else if b >= 0x7ff0_0000_0000_0000 { x }                                                       // infinity, NaN
    else if b == 0x3ff0_0000_0000_0000 { f_lit(0) }                                                // log 1 = 0
    else { fd_core(x, 0) }
}
pub proof fn lemma_hi(b: u64)
    ensures (b >> 32) as u32 == hi32(b), (((b >> 32) as u32) >> 31 != 0) == (b >= 0x8000_0000_0000_0000u64),
        (b << 1 == 0) == (b == 0 || b == 0x8000_0000_0000_0000u64),
        (((b >> 32) as u32) == 0x3ff0_0000u32 && b << 32 == 0) == (b == 0x3ff0_0000_0000_0000u64),
        hi32(b) < 0x10_0000 <==> b < 0x0010_0000_0000_0000u64, hi32(b) >= 0x7ff0_0000 <==> b >= 0x7ff0_0000_0000_0000u64,
{
    assert((b >> 32) as u32 == b / 0x1_0000_0000u64) by (bit_vector);
    assert((((b >> 32) as u32) >> 31 != 0) == (b >= 0x8000_0000_0000_0000u64)) by (bit_vector);
    assert((b << 1 == 0) == (b == 0 || b == 0x8000_0000_0000_0000u64)) by (bit_vector);
    assert((((b >> 32) as u32) == 0x3ff0_0000u32 && b << 32 == 0) == (b == 0x3ff0_0000_0000_0000u64)) by (bit_vector);
}
pub broadcast proof fn lemma_fd_mask(h: u32) ensures #[trigger] (h & 0x000f_ffffu32) == h % 0x10_0000, h & 0x000f_ffffu32 <= 0xf_ffff
{ assert(h & 0x000f_ffffu32 == h % 0x10_0000 && h & 0x000f_ffffu32 <= 0xf_ffff) by (bit_vector); }
pub broadcast proof fn lemma_fd_exp(h: u32) ensures #[trigger] (h >> 20) == h / 0x10_0000, h >> 20 <= 0xfff
{ assert(h >> 20 == h / 0x10_0000 && (h >> 20) <= 0xfff) by (bit_vector); }
pub broadcast proof fn lemma_fd_join(g: u64, b: u64) requires g <= 0xffff_ffff ensures #[trigger] ((g << 32) | (b & 0xffff_ffffu64)) == g * 0x1_0000_0000 + lo32(b)
{ assert(g <= 0xffff_ffffu64 ==> ((g << 32) | (b & 0xffff_ffffu64)) == g * 0x1_0000_0000u64 + b % 0x1_0000_0000u64) by (bit_vector); }
pub broadcast group group_fd { lemma_fd_mask, lemma_fd_exp, lemma_fd_join }
//@endif
// what the crate's ln computes in this configuration
//@if log
pub open spec fn ln_of(x: F64) -> F64 { fd_log(x) }
//@endif
//@if !log
pub open spec fn ln_of(x: F64) -> F64 { f_ln(x) }
//@endif

// ===================================================================
// no estimate is NaN, and that of an empty sketch is exactly 0
// ===================================================================
pub proof fn lemma_in_ord(x: F64, i: int, j: int) requires f_in(x, i, j) ensures f_ord(x)
{ axiom_f_cmp(x, f_int(j)); }
pub proof fn lemma_le_ord(a: F64, b: F64) requires f_le(a, b) ensures f_ord(a), f_ord(b)
{ axiom_f_cmp(a, b); }
pub broadcast proof fn lemma_cmp_cases(a: F64, b: F64)
    ensures f_ord(a) && f_ord(b) ==> (f_lt(a, b) || f_gt(a, b) || #[trigger] f_cmp(a, b) == Some(Ordering::Equal)),
{
    axiom_f_cmp(a, b);
    if f_cmp(a, b) is Some { match f_cmp(a, b)->Some_0 { Ordering::Less => {} Ordering::Equal => {} Ordering::Greater => {} } }
}
// not NaN and not at most: greater
pub proof fn lemma_total(a: F64, b: F64) requires f_ord(a), f_ord(b) ensures f_le(a, b) || f_gt(a, b), f_gt(a, b) <==> f_lt(b, a), f_le(b, b)
{
    axiom_f_cmp(a, b); axiom_f_rev(a, b); axiom_f_rev(b, b); axiom_f_cmp(b, b);
    match f_cmp(a, b)->Some_0 { Ordering::Less => {} Ordering::Equal => {} Ordering::Greater => {} }
    match f_cmp(b, b)->Some_0 { Ordering::Less => {} Ordering::Equal => {} Ordering::Greater => {} }
}
pub proof fn lemma_widen(x: F64, i: int, j: int, k: int, l: int)
    requires f_in(x, i, j), -big() <= k <= i, i <= j, j <= l <= big()
    ensures f_in(x, k, l)
{ axiom_int(k, i); axiom_int(j, l); axiom_trans(f_int(k), f_int(i), x); axiom_trans(x, f_int(j), f_int(l)); }
// a literal between two that are integers
pub proof fn lemma_lit_in(b: u64)
    requires b <= 0x4020_0000_0000_0000
    ensures f_in(f_lit(b), 0, 8), b <= 0x4010_0000_0000_0000 ==> f_in(f_lit(b), 0, 4), b <= 0x4000_0000_0000_0000 ==> f_in(f_lit(b), 0, 2), b <= 0x3ff0_0000_0000_0000 ==> f_in(f_lit(b), 0, 1),
        b >= 0x3ff0_0000_0000_0000 ==> f_in(f_lit(b), 1, 8), 0x3ff0_0000_0000_0000 <= b <= 0x4000_0000_0000_0000 ==> f_in(f_lit(b), 1, 2),
        0x4000_0000_0000_0000 <= b <= 0x4010_0000_0000_0000 ==> f_in(f_lit(b), 2, 4), 0x4010_0000_0000_0000 <= b ==> f_in(f_lit(b), 4, 8),
{
    axiom_lit_int();
    axiom_lit(0, b); axiom_lit(b, 0x4020_0000_0000_0000);
    if b <= 0x4010_0000_0000_0000 { axiom_lit(b, 0x4010_0000_0000_0000); } else { axiom_lit(0x4010_0000_0000_0000, b); }
    if b <= 0x4000_0000_0000_0000 { axiom_lit(b, 0x4000_0000_0000_0000); } else { axiom_lit(0x4000_0000_0000_0000, b); }
    if b <= 0x3ff0_0000_0000_0000 { axiom_lit(b, 0x3ff0_0000_0000_0000); } else { axiom_lit(0x3ff0_0000_0000_0000, b); }
    axiom_lit(b, b); axiom_lit(0x4000_0000_0000_0000, 0x4000_0000_0000_0000); axiom_lit(0x4010_0000_0000_0000, 0x4010_0000_0000_0000); axiom_lit(0x3ff0_0000_0000_0000, 0x3ff0_0000_0000_0000);
}
//@if log
// every step of the reduced logarithm is between small integers
#[verifier::opaque]
pub open spec fn f_abs(x: F64, i: int) -> bool { f_in(x, -i, i) }
pub proof fn lemma_abs(x: F64, i: int) requires f_in(x, -i, i) ensures f_abs(x, i) { reveal(f_abs); }
pub proof fn lemma_abs_in(x: F64, i: int) requires f_abs(x, i) ensures f_in(x, -i, i) { reveal(f_abs); }
pub proof fn lemma_abs_lit(b: u64) requires b <= 0x3ff0_0000_0000_0000 ensures f_abs(f_lit(b), 1)
{ lemma_lit_in(b); lemma_widen(f_lit(b), 0, 1, -1, 1); lemma_abs(f_lit(b), 1); }
pub proof fn lemma_abs_mul(a: F64, b: F64, i: int, k: int) requires f_abs(a, i), f_abs(b, k), 0 <= i <= 0x1_0000, 0 <= k <= 0x1_0000 ensures f_abs(f_mul(a, b), i * k)
{ reveal(f_abs); assert(0 <= i * k <= 0x1_0000_0000) by (nonlinear_arith) requires 0 <= i <= 0x1_0000, 0 <= k <= 0x1_0000; axiom_mul_abs(a, b, i, k); }
pub proof fn lemma_abs_add(a: F64, b: F64, i: int, k: int) requires f_abs(a, i), f_abs(b, k), 0 <= i <= 0x1_0000, 0 <= k <= 0x1_0000 ensures f_abs(f_add(a, b), i + k)
{ reveal(f_abs); axiom_add_in(a, b, -i, i, -k, k); }
pub proof fn lemma_abs_sub(a: F64, b: F64, i: int, k: int) requires f_abs(a, i), f_abs(b, k), 0 <= i <= 0x1_0000, 0 <= k <= 0x1_0000 ensures f_abs(f_sub(a, b), i + k)
{ reveal(f_abs); axiom_sub_in(a, b, -i, i, -k, k); }
pub proof fn lemma_core_ord(x: F64, k: int)
    requires 0x0010_0000_0000_0000 <= f_bits(x) < 0x7ff0_0000_0000_0000, k == 0 || k == -54
    ensures f_ord(fd_core(x, k))
{
    let h = hi32(f_bits(x)) + (0x3ff0_0000 - 0x3fe6_a09e);
    let e = k + h / 0x10_0000 - 0x3ff;
    let dk = f_int(e);
    let yb = ((h % 0x10_0000 + 0x3fe6_a09e) * 0x1_0000_0000 + lo32(f_bits(x))) as u64;
    let y = f_lit(yb);
    let f = f_sub(y, f_lit(0x3ff0_0000_0000_0000));
    let hfsq = f_mul(f_mul(f_lit(0x3fe0_0000_0000_0000), f), f);
    let s = f_div(f, f_add(f_lit(0x4000_0000_0000_0000), f));
    let z = f_mul(s, s);
    let w = f_mul(z, z);
    axiom_int(e, 0x1000); axiom_int(-0x1000, e); lemma_abs(dk, 0x1000);
    lemma_lit_in(yb); lemma_lit_in(0x3ff0_0000_0000_0000); lemma_lit_in(0x4000_0000_0000_0000);
    axiom_lit_int(); axiom_int(1, 1); axiom_int(2, 2);
    axiom_sub_in(y, f_int(1), 0, 2, 1, 1); lemma_abs(f, 1);
    lemma_abs_lit(0x3fe0_0000_0000_0000); lemma_abs_mul(f_lit(0x3fe0_0000_0000_0000), f, 1, 1); lemma_abs_mul(f_mul(f_lit(0x3fe0_0000_0000_0000), f), f, 1, 1);
    axiom_add_in(f_int(2), f, 2, 2, -1, 1);
    axiom_div_abs(f, f_add(f_int(2), f), 1); lemma_abs(s, 1);
    lemma_abs_mul(s, s, 1, 1); lemma_abs_mul(z, z, 1, 1);
    lemma_abs_lit(0x3fc3_9a09_d078_c69f); lemma_abs_lit(0x3fcc_71c5_1d8e_78af); lemma_abs_lit(0x3fd9_9999_9997_fa04);
    let a1 = f_mul(w, f_lit(0x3fc3_9a09_d078_c69f)); let a2 = f_add(f_lit(0x3fcc_71c5_1d8e_78af), a1); let a3 = f_mul(w, a2); let a4 = f_add(f_lit(0x3fd9_9999_9997_fa04), a3); let t1 = f_mul(w, a4);
    lemma_abs_mul(w, f_lit(0x3fc3_9a09_d078_c69f), 1, 1); lemma_abs_add(f_lit(0x3fcc_71c5_1d8e_78af), a1, 1, 1); lemma_abs_mul(w, a2, 1, 2); lemma_abs_add(f_lit(0x3fd9_9999_9997_fa04), a3, 1, 2); lemma_abs_mul(w, a4, 1, 3);
    lemma_abs_lit(0x3fc2_f112_df3e_5244); lemma_abs_lit(0x3fc7_4664_96cb_03de); lemma_abs_lit(0x3fd2_4924_9422_9359); lemma_abs_lit(0x3fe5_5555_5555_5593);
    let b1 = f_mul(w, f_lit(0x3fc2_f112_df3e_5244)); let b2 = f_add(f_lit(0x3fc7_4664_96cb_03de), b1); let b3 = f_mul(w, b2); let b4 = f_add(f_lit(0x3fd2_4924_9422_9359), b3); let b5 = f_mul(w, b4); let b6 = f_add(f_lit(0x3fe5_5555_5555_5593), b5); let t2 = f_mul(z, b6);
    lemma_abs_mul(w, f_lit(0x3fc2_f112_df3e_5244), 1, 1); lemma_abs_add(f_lit(0x3fc7_4664_96cb_03de), b1, 1, 1); lemma_abs_mul(w, b2, 1, 2); lemma_abs_add(f_lit(0x3fd2_4924_9422_9359), b3, 1, 2); lemma_abs_mul(w, b4, 1, 3);
    lemma_abs_add(f_lit(0x3fe5_5555_5555_5593), b5, 1, 3); lemma_abs_mul(z, b6, 1, 4);
    let r = f_add(t2, t1);
    lemma_abs_add(t2, t1, 4, 3); lemma_abs_add(hfsq, r, 1, 7); lemma_abs_mul(s, f_add(hfsq, r), 1, 8);
    lemma_abs_lit(0x3dea_39ef_3579_3c76); lemma_abs_lit(0x3fe6_2e42_fee0_0000);
    let c1 = f_mul(dk, f_lit(0x3dea_39ef_3579_3c76)); let c2 = f_add(f_mul(s, f_add(hfsq, r)), c1); let c3 = f_sub(c2, hfsq); let c4 = f_add(c3, f); let c5 = f_mul(dk, f_lit(0x3fe6_2e42_fee0_0000));
    lemma_abs_mul(dk, f_lit(0x3dea_39ef_3579_3c76), 0x1000, 1); lemma_abs_add(f_mul(s, f_add(hfsq, r)), c1, 8, 0x1000); lemma_abs_sub(c2, hfsq, 0x1008, 1); lemma_abs_add(c3, f, 0x1009, 1);
    lemma_abs_mul(dk, f_lit(0x3fe6_2e42_fee0_0000), 0x1000, 1); lemma_abs_add(c4, c5, 0x100a, 0x1000);
    lemma_abs_in(f_add(c4, c5), 0x200a); lemma_in_ord(f_add(c4, c5), -0x200a, 0x200a);
    assert(f_add(c4, c5) == fd_core(x, k));
}
// the special cases, and no other argument gives NaN
pub proof fn theorem_log(x: F64)
    ensures
        x == f_lit(0) || x == f_lit(0x8000_0000_0000_0000) ==> fd_log(x) == f_lit(0xfff0_0000_0000_0000),       // log of +-0 is -infinity
        f_lt(x, f_int(0)) ==> !f_ord(fd_log(x)),                                                               // of a negative number NaN
        x == f_lit(0x3ff0_0000_0000_0000) ==> fd_log(x) == f_lit(0),                                           // of 1 zero
        x == f_lit(0x7ff0_0000_0000_0000) || !f_ord(x) ==> fd_log(x) == x || !f_ord(fd_log(x)) && !f_ord(x),   // infinity and NaN are returned
        x == f_lit(0x7ff0_0000_0000_0000) ==> fd_log(x) == x,
        f_le(f_int(0), x) ==> f_ord(fd_log(x)),
{
    let b = f_bits(x);
    axiom_bits(x); axiom_lit_int();
    axiom_lit_bits(0); axiom_lit_bits(0x8000_0000_0000_0000); axiom_lit_bits(0x3ff0_0000_0000_0000); axiom_lit_bits(0x7ff0_0000_0000_0000); axiom_lit_bits(0xfff0_0000_0000_0000);
    if b == 0 || b == 0x8000_0000_0000_0000 { axiom_log_zero(b); assert(x == f_lit(b)); }
    axiom_log_negative(x);
    if f_lt(x, f_int(0)) {
        axiom_f_cmp(x, f_int(0)); axiom_f_rev(x, f_int(0));
        if b <= 0x7ff0_0000_0000_0000 { axiom_lit(0, b); }
        if b == 0x8000_0000_0000_0000 { axiom_minus_zero(); }
    }
    if f_le(f_int(0), x) {
        lemma_le_ord(f_int(0), x);
        if 0 < b < 0x0010_0000_0000_0000 { axiom_scale(x); lemma_core_ord(f_mul(x, f_lit(0x4350_0000_0000_0000)), -54); }
        else if 0x0010_0000_0000_0000 <= b < 0x7ff0_0000_0000_0000 { lemma_core_ord(x, 0); }
    }
}
//@endif
//@if !log
// TRUSTED: std's natural logarithm of a number from 0 on is not NaN, and that of 1 is 0
#[verifier::external_body]
pub proof fn axiom_ln(x: F64) ensures f_le(f_int(0), x) ==> f_ord(f_ln(x)), f_ln(f_int(1)) == f_int(0) { }
//@endif
pub proof fn lemma_ln(x: F64) ensures f_le(f_int(0), x) ==> f_ord(ln_of(x)), ln_of(f_int(1)) == f_int(0)
{
    axiom_lit_int();
//@if log
    theorem_log(x); theorem_log(f_int(1));
//@endif
//@if !log
    axiom_ln(x);
//@endif
}
// linear counting: m ln(m / zeros)
pub proof fn lemma_linear(m: int, zeros: int)
    requires 1 <= zeros <= m <= big()
    ensures f_ord(linear_spec(m, zeros)), zeros == m ==> linear_spec(m, zeros) == f_int(0)
{
    axiom_int(0, m); axiom_int(0, zeros); axiom_int(m, m); axiom_int(1, m);
    axiom_div_ord(f_int(m), f_int(zeros), m);
    lemma_ln(f_div(f_int(m), f_int(zeros)));
    axiom_mul_ord(f_int(m), ln_of(f_div(f_int(m), f_int(zeros))), m);
    axiom_div_self(m); axiom_mul_zero(m);
}
// the sum of the powers is positive and at most their number
pub proof fn lemma_sum(regs: Seq<u32>)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < 64, 1 <= regs.len() <= 0x4_0000
    ensures
        f_lt(f_int(0), f_sum(regs.map_values(|v: u32| two_to_minus(v)))), f_in(f_sum(regs.map_values(|v: u32| two_to_minus(v))), 0, regs.len() as int),
        (forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0) ==> f_sum(regs.map_values(|v: u32| two_to_minus(v))) == f_int(regs.len() as int),
    decreases regs.len()
{
    let m = regs.map_values(|v: u32| two_to_minus(v));
    let d = regs.drop_last();
    let n = d.len() as int;
    let t = two_to_minus(regs.last());
    assert(d.map_values(|v: u32| two_to_minus(v)) =~= m.drop_last());
    assert(m.last() == t);
    lemma_two_minus(regs.last());
    if n == 0 { lemma_zero(regs.last()); assert(m.drop_last().len() == 0); assert(f_sum(m.drop_last()) == f_zero()); }
    else {
        lemma_sum(d);
        let a = f_sum(m.drop_last());
        axiom_add_in(a, t, 0, n, 0, 1);
        axiom_add_mono(a, t, n, 1);
        axiom_trans(f_int(0), t, f_add(a, t));
        if forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0 {
            assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] == 0 by { assert(d[k] == regs[k]); }
            assert(regs[n] == 0);
            axiom_add_int(n, 1);
        }
    }
}
pub proof fn lemma_alpha(m: int) requires 16 <= m <= 0x4_0000 ensures f_in(alpha_spec(m), 0, 1)
{
    lemma_lit_in(0x3fe5_8937_4bc6_a7f0); lemma_lit_in(0x3fe6_4dd2_f1a9_fbe7); lemma_lit_in(0x3fe6_b020_c49b_a5e3); lemma_lit_in(0x3fe7_14e3_bcd3_5a86); lemma_lit_in(0x3ff1_4395_8106_24dd);
    axiom_lit_int(); axiom_int(1, m); axiom_int(1, 1);
    let q = f_div(f_lit(0x3ff1_4395_8106_24dd), f_int(m));
    axiom_div_in(f_lit(0x3ff1_4395_8106_24dd), f_int(m), 2, 1);
    axiom_add_in(k_one(), q, 1, 1, 0, 2);
    axiom_div_in(f_lit(0x3fe7_14e3_bcd3_5a86), f_add(k_one(), q), 1, 1);
}
pub proof fn lemma_raw(regs: Seq<u32>, m: int)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < 64, regs.len() == m, 16 <= m <= 0x4_0000
    ensures f_le(f_int(0), raw_spec(regs, m)), (forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0) ==> f_in(raw_spec(regs, m), 0, m)
{
    let sum = f_sum(regs.map_values(|v: u32| two_to_minus(v)));
    let num = f_mul(alpha_spec(m), f_int(m * m));
    assert(1 <= m * m <= 0x10_0000_0000) by (nonlinear_arith) requires 1 <= m <= 0x4_0000;
    lemma_sum(regs); lemma_alpha(m);
    axiom_int(m * m, m * m); axiom_int(m, m);
    axiom_mul_in(alpha_spec(m), f_int(m * m), 0, 1, m * m, m * m);
    axiom_div_ord(num, sum, m * m);
    if forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0 { axiom_div_in(num, f_int(m), m, m); }
}
pub proof fn lemma_zeros_len(regs: Seq<u32>)
    ensures count_zeros(regs) <= regs.len(), (forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0) ==> count_zeros(regs) == regs.len()
    decreases regs.len()
{
    if regs.len() > 0 {
        let d = regs.drop_last();
        lemma_zeros_len(d);
        if forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0 {
            assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] == 0 by { assert(d[k] == regs[k]); }
            assert(regs[regs.len() - 1] == 0);
        }
    }
}
// the classic estimate
pub proof fn theorem_classic(regs: Seq<u32>, m: int)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < 32, regs.len() == m, 16 <= m <= 0x4_0000
    ensures f_ord(classic_spec(regs, m)), (forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0) ==> classic_spec(regs, m) == f_lit(0)
{
    let raw = raw_spec(regs, m);
    let zeros = count_zeros(regs) as int;
    lemma_raw(regs, m); lemma_le_ord(f_int(0), raw); lemma_zeros_len(regs);
    axiom_lit_int();
    if zeros != 0 { lemma_linear(m, zeros); }
    // raw > 2^32 / 30
    let w = f_min(raw, k_two32());
    axiom_int(0, 0x1_0000_0000); axiom_int(0, 1); axiom_int(1, 1); axiom_int(0x1_0000_0000, 0x1_0000_0000); axiom_int(0x1_0000_0000, 0x4000_0000_0000);
    axiom_min(raw, k_two32());
    let q = f_div(w, k_two32());
    axiom_div_part(w, k_two32(), 0x4000_0000_0000);
    axiom_sub_in(k_one(), q, 1, 1, 0, 1);
    let l = f_sub(k_one(), q);
    lemma_ln(l);
    axiom_mul_int(-1, 0x1_0000_0000); axiom_int(-0x1_0000_0000, -0x1_0000_0000); axiom_int(-0x1_0000_0000, -1);
    axiom_mul_ord(f_int(-0x1_0000_0000), ln_of(l), 0x1_0000_0000);
    if forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] == 0 {
        // raw <= m <= 2.5 m
        lemma_lit_in(0x4004_0000_0000_0000);
        axiom_int(m, m); axiom_int(m, 2 * m);
        axiom_mul_in(f_lit(0x4004_0000_0000_0000), f_int(m), 2, 4, m, m);
        let c = f_mul(f_lit(0x4004_0000_0000_0000), f_int(m));
        axiom_trans(raw, f_int(m), f_int(2 * m)); axiom_trans(raw, f_int(2 * m), c);
    }
}
// none of what the classic estimate compares is NaN
pub proof fn lemma_classic_forms(regs: Seq<u32>, m: int)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < 32, regs.len() == m, 16 <= m <= 0x4_0000
    ensures f_ord(raw_spec(regs, m)), f_ord(f_mul(f_lit(0x4004_0000_0000_0000), f_int(m))), f_ord(f_lit(0x41a1_1111_1111_1111)), f_ord(k_two32())
{
    lemma_raw(regs, m); lemma_le_ord(f_int(0), raw_spec(regs, m));
    lemma_lit_in(0x4004_0000_0000_0000); axiom_int(m, m);
    axiom_mul_in(f_lit(0x4004_0000_0000_0000), f_int(m), 2, 4, m, m);
    lemma_in_ord(f_mul(f_lit(0x4004_0000_0000_0000), f_int(m)), 2 * m, 4 * m);
    axiom_lit_bits(0x41a1_1111_1111_1111); axiom_int(0x1_0000_0000, 0x1_0000_0000);
}
pub proof fn lemma_classic_new(p: u8)
    requires 4 <= p <= 16
    ensures forall|regs: Seq<u32>| regs_hold(false, regs, Set::empty(), p) ==> #[trigger] classic_spec(regs, (1usize << p) as int) == f_lit(0)
{
    lemma_pow2(p);
    assert forall|regs: Seq<u32>| regs_hold(false, regs, Set::empty(), p) implies #[trigger] classic_spec(regs, (1usize << p) as int) == f_lit(0) by {
        assert forall|k: int| 0 <= k < regs.len() implies #[trigger] regs[k] == 0 by {
            if regs[k] != 0 { let h = choose|h: u64| witness(false, Set::empty(), p, k, regs[k], h); assert(witness(false, Set::empty(), p, k, regs[k], h)); }
        }
        theorem_classic(regs, (1usize << p) as int);
    }
}

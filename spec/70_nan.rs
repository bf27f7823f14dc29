//@if HyperLogLogPlus
// ===================================================================
// no HyperLogLog++ estimate is NaN, and that of an empty sketch is exactly 0
// ===================================================================
pub proof fn lemma_bias(p: u8, raw: F64)
    requires 4 <= p <= 18, f_ord(raw)
    ensures f_in(bias_spec(p, raw), -0x80_0000, 0x80_0000)
{
    lemma_tables(p);
    let est = raw_table()[p - 4];
    let bias = bias_table()[p - 4];
    let big2: int = 0x20_0000;
    let last = est.len() - 1;
    assert(f_in(est[0], 1, big2) && f_in(bias[0], -big2, big2) && f_in(est[last], 1, big2) && f_in(bias[last], -big2, big2));
    lemma_widen(bias[0], -big2, big2, -0x80_0000, 0x80_0000);
    lemma_widen(bias[last], -big2, big2, -0x80_0000, 0x80_0000);
    if !f_le(raw, est[0]) && !f_le(est[last], raw) {
        lemma_encloses(p, raw);
        let i = found_at(bs_res(ords(est, raw)));
        let (e0, e1, b0, b1) = (est[i - 1], est[i], bias[i - 1], bias[i]);
        assert(f_in(e0, 1, big2) && f_in(e1, 1, big2) && f_in(b0, -big2, big2) && f_in(b1, -big2, big2));
        let d = f_sub(e1, e0);
        let a = f_sub(raw, e0);
        let ratio = f_div(a, d);
        axiom_int(0, 1); axiom_int(1, 1); axiom_trans(f_int(0), f_int(1), e1);
        lemma_widen(e0, 1, big2, -big2, big2); lemma_widen(e1, 1, big2, -big2, big2);
        axiom_sub_in(e1, e0, -big2, big2, -big2, big2);
        axiom_sub_sign(e1, e0, big2, big2);
        if f_cmp(e1, raw) == Some(Ordering::Equal) {
            axiom_equal(e1, raw);
            assert(f_lt(est[i - 1], est[i]) || f_lt(est[i], est[i - 1]));
            axiom_div_same(d, 2 * big2);
        } else {
            axiom_trans(f_int(1), e0, raw); axiom_trans(raw, e1, f_int(big2));
            axiom_trans(e0, raw, e1);
            lemma_widen(raw, 1, big2, -big2, big2);
            axiom_sub_sign(raw, e0, big2, big2);
            axiom_sub_mono(raw, e1, e0, big2, big2);
            axiom_div_part(a, d, 2 * big2);
        }
        lemma_widen(ratio, 0, 1, -1, 1);
        let db = f_sub(b1, b0);
        axiom_sub_in(b1, b0, -big2, big2, -big2, big2);
        axiom_mul_abs(ratio, db, 1, 2 * big2);
        axiom_add_in(b0, f_mul(ratio, db), -big2, big2, -2 * big2, 2 * big2);
        lemma_widen(f_add(b0, f_mul(ratio, db)), -3 * big2, 3 * big2, -0x80_0000, 0x80_0000);
    }
}
pub proof fn theorem_dense(regs: Seq<u32>, m: int, p: u8)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < 64, regs.len() == m, 16 <= m <= 0x4_0000, 4 <= p <= 18
    ensures f_ord(dense_spec(regs, m, p))
{
    let raw = raw_spec(regs, m);
    let zeros = count_zeros(regs) as int;
    lemma_raw(regs, m); lemma_le_ord(f_int(0), raw); lemma_zeros_len(regs);
    if zeros != 0 { lemma_linear(m, zeros); }
    lemma_bias(p, raw);
    lemma_lit_in(0x4014_0000_0000_0000);
    axiom_int(m, m); axiom_int(8 * m, 0x20_0000);
    let c = f_mul(f_lit(0x4014_0000_0000_0000), f_int(m));
    axiom_mul_in(f_lit(0x4014_0000_0000_0000), f_int(m), 4, 8, m, m);
    if f_le(raw, c) {
        axiom_trans(raw, c, f_int(8 * m)); axiom_trans(raw, f_int(8 * m), f_int(0x20_0000));
        axiom_sub_in(raw, bias_spec(p, raw), 0, 0x20_0000, -0x80_0000, 0x80_0000);
        lemma_in_ord(f_sub(raw, bias_spec(p, raw)), -0x80_0000, 0xa0_0000);
    }
}
// none of what the estimate compares is NaN: not at most is greater
pub broadcast proof fn lemma_raw_form(regs: Seq<u32>, m: int)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < 64, regs.len() == m, 16 <= m <= 0x4_0000
    ensures f_ord(#[trigger] raw_spec(regs, m)), f_ord(f_mul(f_lit(0x4014_0000_0000_0000), f_int(m))), f_mul(f_int(m), f_lit(0x4014_0000_0000_0000)) == f_mul(f_lit(0x4014_0000_0000_0000), f_int(m))
{
    lemma_raw(regs, m); lemma_le_ord(f_int(0), raw_spec(regs, m));
    lemma_lit_in(0x4014_0000_0000_0000); axiom_int(m, m);
    axiom_comm(f_lit(0x4014_0000_0000_0000), f_int(m));
    axiom_mul_in(f_lit(0x4014_0000_0000_0000), f_int(m), 4, 8, m, m);
    lemma_in_ord(f_mul(f_lit(0x4014_0000_0000_0000), f_int(m)), 4 * m, 8 * m);
}
pub broadcast proof fn lemma_linear_form(m: int, zeros: int)
    requires 1 <= zeros <= m <= big()
    ensures f_ord(#[trigger] linear_spec(m, zeros))
{ lemma_linear(m, zeros); }
pub broadcast proof fn lemma_threshold_form(p: u8)
    requires 4 <= p <= 18
    ensures f_ord(#[trigger] threshold_spec(p))
{
    axiom_lit_bits(0x4024000000000000); axiom_lit_bits(0x4034000000000000); axiom_lit_bits(0x4044000000000000); axiom_lit_bits(0x4054000000000000); axiom_lit_bits(0x406b800000000000); axiom_lit_bits(0x4079000000000000); axiom_lit_bits(0x408c200000000000); axiom_lit_bits(0x409c200000000000); axiom_lit_bits(0x40a8380000000000); axiom_lit_bits(0x40b9640000000000); axiom_lit_bits(0x40c6760000000000); axiom_lit_bits(0x40d3880000000000); axiom_lit_bits(0x40e86a0000000000); axiom_lit_bits(0x40fd4c0000000000); axiom_lit_bits(0x41155cc000000000);
}
pub broadcast group group_forms { lemma_raw_form, lemma_linear_form, lemma_threshold_form, lemma_cmp_cases, axiom_f_cmp, axiom_f_rev }
pub proof fn theorem_plus_ord<H: Hash + ?Sized, B: BuildHasher>(s: &HyperLogLogPlus<H, B>)
    requires s.wf()
    ensures f_ord(s.estimate()), s.registers is None && s.sparse@.len() == 0 ==> s.estimate() == f_lit(0),
{
    lemma_pow2(s.precision);
    axiom_lit_int();
    if s.registers is Some { theorem_dense(s.regs(), s.counts.0 as int, s.precision); }
    else { lemma_dif_count(s.sparse); lemma_linear(0x200_0000, 0x200_0000 - s.sparse@.len()); }
}
// an empty sketch, however it came to be (merges of empty ones included)
pub proof fn theorem_plus_empty<H: Hash + ?Sized, B: BuildHasher>(s: &HyperLogLogPlus<H, B>)
    requires s.holds(Set::empty())
    ensures s.registers is None, s.codes() == Set::<u32>::empty(), s.sparse@.len() == 0, s.estimate() == f_lit(0)
{
    let p = s.precision;
    if s.registers is Some {
        let c = choose|c: Seq<u32>| overflow_by(c, Set::empty(), p, budget_of(p));
        if c.len() > 0 { let h = choose|h: u64| #[trigger] Set::<u64>::empty().contains(h) && enc(h, p) == c[0]; assert(Set::<u64>::empty().contains(h)); }
        assert(enc_from(0, c).len() == 0);
    }
    assert forall|x: u32| !s.codes().contains(x) by { if s.codes().contains(x) { let h = choose|h: u64| #[trigger] Set::<u64>::empty().contains(h) && enc(h, p) == x; } }
    assert(s.codes() =~= Set::<u32>::empty());
    if s.sparse@.len() > 0 { lemma_seq_set(s.sparse@, s.sparse@[0]); assert(s.codes().contains(s.sparse@[0])); }
    theorem_plus_ord(s);
}
//@endif
pub proof fn theorem_pf_ord<H: Hash + ?Sized, B: BuildHasher>(s: &HyperLogLogPF<H, B>)
    requires s.wf()
    ensures f_ord(classic_spec(s.registers.regs(), s.count as int)), s.holds(Set::empty()) ==> classic_spec(s.registers.regs(), s.count as int) == f_lit(0)
{
    lemma_pow2(s.precision);
    lemma_classic_new(s.precision);
    theorem_classic(s.registers.regs(), s.count as int);
}

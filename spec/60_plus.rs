// ===================================================================
// HyperLogLog++
// ===================================================================
//@if HyperLogLogPlus
// regs is base raised by every code in done
pub open spec fn code_at(done: Set<u32>, p: u8, i: int, v: u32, c: u32) -> bool { done.contains(c) && dec_idx(c, p) == i && dec_rank(c, p) == v }
#[verifier::opaque]
pub open spec fn absorbs(regs: Seq<u32>, base: Seq<u32>, done: Set<u32>, p: u8) -> bool {
    &&& regs.len() == base.len() == 1usize << p
    &&& forall|i: int| 0 <= i < regs.len() ==> base[i] <= #[trigger] regs[i]
    &&& forall|c: u32| #[trigger] done.contains(c) ==> dec_rank(c, p) <= regs[dec_idx(c, p)]
    &&& forall|i: int| 0 <= i < regs.len() && #[trigger] regs[i] != base[i] ==> exists|c: u32| code_at(done, p, i, regs[i], c)
}
pub proof fn lemma_absorb_none(base: Seq<u32>, p: u8) requires base.len() == 1usize << p ensures absorbs(base, base, Set::empty(), p) { reveal(absorbs); }
pub proof fn lemma_absorb(regs: Seq<u32>, base: Seq<u32>, done: Set<u32>, c: u32, p: u8)
    requires absorbs(regs, base, done, p), 4 <= p <= 18
    ensures absorbs(raise(regs, dec_idx(c, p), dec_rank(c, p)), base, done.insert(c), p)
{
    reveal(absorbs);
    lemma_dec_bounds(c, p);
    let n = raise(regs, dec_idx(c, p), dec_rank(c, p));
    let d2 = done.insert(c);
    assert forall|x: u32| #[trigger] d2.contains(x) implies dec_rank(x, p) <= n[dec_idx(x, p)] by {
        lemma_dec_bounds(x, p);
        if x != c { assert(done.contains(x)); }
    }
    assert forall|i: int| 0 <= i < n.len() && #[trigger] n[i] != base[i] implies exists|x: u32| code_at(d2, p, i, n[i], x) by {
        if i == dec_idx(c, p) && dec_rank(c, p) > regs[i] {
            assert(code_at(d2, p, i, n[i], c));
        } else {
            assert(regs[i] != base[i]);
            let x = choose|x: u32| code_at(done, p, i, regs[i], x);
            assert(code_at(done, p, i, regs[i], x));
            assert(code_at(d2, p, i, n[i], x));
        }
    }
}
// the codes are exactly those of the hash values in hs
pub open spec fn codes_hold(codes: Set<u32>, hs: Set<u64>, p: u8) -> bool {
    &&& forall|h: u64| #[trigger] hs.contains(h) ==> codes.contains(enc(h, p))
    &&& forall|c: u32| #[trigger] codes.contains(c) ==> exists|h: u64| #[trigger] hs.contains(h) && enc(h, p) == c
}
pub proof fn lemma_absorb_hold(regs: Seq<u32>, base: Seq<u32>, codes: Set<u32>, ha: Set<u64>, hb: Set<u64>, p: u8)
    requires 4 <= p <= 18, absorbs(regs, base, codes, p), regs_hold(true, base, ha, p), codes_hold(codes, hb, p)
    ensures regs_hold(true, regs, ha.union(hb), p)
{
    reveal(absorbs);
    let hs = ha.union(hb);
    assert forall|h: u64| #[trigger] hs.contains(h) implies 0 <= idx_of(true, h, p) < regs.len() && rank_of(true, h, p) <= regs[idx_of(true, h, p)] by {
        lemma_code(h, p);
        lemma_dec_bounds(enc(h, p), p);
        if hb.contains(h) { assert(codes.contains(enc(h, p))); } else { assert(ha.contains(h)); }
    }
    assert forall|i: int| 0 <= i < regs.len() && #[trigger] regs[i] != 0 implies exists|h: u64| witness(true, hs, p, i, regs[i], h) by {
        if regs[i] != base[i] {
            let c = choose|c: u32| code_at(codes, p, i, regs[i], c);
            assert(code_at(codes, p, i, regs[i], c));
            let h = choose|h: u64| #[trigger] hb.contains(h) && enc(h, p) == c;
            assert(hb.contains(h));
            lemma_code(h, p);
            assert(witness(true, hs, p, i, regs[i], h));
        } else {
            let h = choose|h: u64| witness(true, ha, p, i, base[i], h);
            assert(witness(true, ha, p, i, base[i], h));
            assert(witness(true, hs, p, i, regs[i], h));
        }
    }
}
pub open spec fn seq_set(s: Seq<u32>) -> Set<u32> { s.to_set() }
pub broadcast proof fn lemma_seq_set(s: Seq<u32>, x: u32) ensures #[trigger] seq_set(s).contains(x) <==> s.contains(x) { }
// sparse storage that some of the codes of hs already overflow
pub open spec fn overflow_by(c: Seq<u32>, hs: Set<u64>, p: u8, budget: int) -> bool {
    &&& incr(c)
    &&& enc_from(0, c).len() > budget
    &&& forall|k: int| 0 <= k < c.len() ==> exists|h: u64| #[trigger] hs.contains(h) && enc(h, p) == #[trigger] c[k]
}
pub open spec fn overflows(hs: Set<u64>, p: u8, budget: int) -> bool { exists|c: Seq<u32>| overflow_by(c, hs, p, budget) }
pub proof fn lemma_overflow_mono(a: Set<u64>, b: Set<u64>, p: u8, budget: int)
    requires overflows(a, p, budget), a.subset_of(b)
    ensures overflows(b, p, budget)
{
    let c = choose|c: Seq<u32>| overflow_by(c, a, p, budget);
    assert forall|k: int| 0 <= k < c.len() implies exists|h: u64| #[trigger] b.contains(h) && enc(h, p) == #[trigger] c[k] by {
        let h = choose|h: u64| #[trigger] a.contains(h) && enc(h, p) == c[k];
        assert(b.contains(h));
    }
    assert(overflow_by(c, b, p, budget));
}
// ------------------------------------------------- monotonicity of the size
pub proof fn lemma_vint_mono(a: int, b: int) requires 0 <= a <= b ensures vint(a).len() <= vint(b).len(), vint(a).len() >= 1 decreases b
{ if b >= 128 { if a >= 128 { lemma_vint_mono(a / 128, b / 128); } } }
pub proof fn lemma_vint_sub(a: int, b: int) requires 0 <= a, 0 <= b ensures vint(a + b).len() <= vint(a).len() + vint(b).len() decreases a + b
{
    reveal_with_fuel(vint, 3);
    if a + b >= 128 {
        if a >= 128 && b >= 128 {
            lemma_vint_sub(a / 128, b / 128);
            let q = a / 128 + b / 128;
            assert((a + b) / 128 <= q + 1);
            // one carry fits in the extra byte
            lemma_vint_mono((a + b) / 128, q + 1);
            lemma_vint_sub1(q);
            lemma_vint_mono(0, a / 128);
        } else if a < 128 && b < 128 {
            assert((a + b) / 128 == 1);
        } else if a < 128 {
            assert((a + b) / 128 <= b / 128 + 1);
            lemma_vint_mono((a + b) / 128, b / 128 + 1);
            lemma_vint_sub1(b / 128);
        } else {
            assert((a + b) / 128 <= a / 128 + 1);
            lemma_vint_mono((a + b) / 128, a / 128 + 1);
            lemma_vint_sub1(a / 128);
        }
    } else { lemma_vint_mono(0, a); lemma_vint_mono(0, b); }
}
pub proof fn lemma_vint_sub1(a: int) requires 0 <= a ensures vint(a + 1).len() <= vint(a).len() + 1 decreases a
{
    reveal_with_fuel(vint, 3);
    if a + 1 >= 128 && a >= 128 {
        if (a + 1) / 128 > a / 128 { assert((a + 1) / 128 == a / 128 + 1); lemma_vint_sub1(a / 128); } else { assert((a + 1) / 128 == a / 128); }
    } else if a + 1 >= 128 { assert((a + 1) / 128 == 1); }
}
// fewer codes never take more bytes
pub proof fn lemma_enc_mono(last_a: int, a: Seq<u32>, last_b: int, b: Seq<u32>)
    requires incr(a), incr(b), 0 <= last_b <= last_a, a.len() > 0 ==> last_a <= a[0], b.len() > 0 ==> last_b <= b[0],
        forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k]),
    ensures enc_from(last_a, a).len() <= enc_from(last_b, b).len(),
    decreases b.len()
{
    if a.len() > 0 {
        assert(b.contains(a[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        let b1 = b.drop_first();
        assert(incr(b1));
        if j == 0 {
            let a1 = a.drop_first();
            assert(incr(a1));
            assert forall|k: int| 0 <= k < a1.len() implies b1.contains(#[trigger] a1[k]) by {
                assert(b.contains(a[k + 1]));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == a[k + 1];
                assert(a[0] < a[k + 1]);
                assert(b1[m - 1] == a1[k]);
            }
            lemma_vint_mono(a[0] - last_a, b[0] - last_b);
            lemma_enc_mono(a[0] as int, a1, b[0] as int, b1);
        } else {
            assert(b[0] < b[j]);
            assert forall|k: int| 0 <= k < a.len() implies b1.contains(#[trigger] a[k]) by {
                assert(b.contains(a[k]));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == a[k];
                if k > 0 { assert(a[0] < a[k]); }
                assert(b1[m - 1] == a[k]);
            }
            if b[0] <= last_a {
                lemma_enc_mono(last_a, a, b[0] as int, b1);
            } else {
                // last_a < b[0] < a[0]: split the first difference
                lemma_enc_mono(b[0] as int, a, b[0] as int, b1);
                lemma_vint_sub(b[0] - last_a, a[0] - b[0]);
                lemma_vint_mono(b[0] - last_a, b[0] - last_b);
            }
        }
    }
}
pub proof fn lemma_set_len(s: Set<u32>) ensures s.len() <= 0x1_0000_0000 {
    lemma_set_len_below(s, 0x1_0000_0000);
}
pub proof fn lemma_set_len_below(s: Set<u32>, n: int)
    requires 0 <= n, forall|x: u32| s.contains(x) ==> x < n
    ensures s.len() <= n
    decreases n
{
    if n == 0 { assert(s =~= Set::empty()); }
    else {
        let t = s.remove((n - 1) as u32);
        assert forall|x: u32| t.contains(x) implies x < n - 1 by {}
        lemma_set_len_below(t, n - 1);
    }
}

pub open spec fn budget_of(p: u8) -> int { (4 * (1usize << p)) / 5 }
impl<H, B> HyperLogLogPlus<H, B> where H: Hash + ?Sized, B: BuildHasher {
    pub open spec fn cfg_ok(&self) -> bool {
        &&& 4 <= self.precision <= 18
        &&& self.counts.0 == 1usize << self.precision
        &&& self.counts.1 == 0x200_0000
        &&& self.counts.2 == budget_of(self.precision)
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.builder == o.builder && self.precision == o.precision && self.counts == o.counts }
    // the sparse codes of the sketch
    pub open spec fn codes(&self) -> Set<u32> { self.tmpset@.union(seq_set(self.sparse@)) }
    pub open spec fn regs(&self) -> Seq<u32> { self.registers->Some_0.regs() }
    pub open spec fn dense_ok(&self) -> bool {
        let r = self.registers->Some_0;
        &&& r.wf()
        &&& r.count == self.counts.0
        &&& forall|i: int| 0 <= i < r.count ==> #[trigger] r.regs()[i] <= 65 - self.precision
        &&& self.tmpset@ == Set::<u32>::empty()
        &&& self.sparse.wf() && self.sparse@ == Seq::<u32>::empty()
    }
    pub open spec fn sparse_ok(&self) -> bool {
        &&& self.sparse.wf()
        &&& incr(self.sparse@)
        &&& self.sparse.bytes().len() <= self.counts.2
        &&& forall|c: u32| #[trigger] self.codes().contains(c) ==> code_ok(c, self.precision)
    }
    // between operations the temporary set is small as well
    pub open spec fn wf(&self) -> bool {
        &&& self.cfg_ok()
        &&& if self.registers is Some { self.dense_ok() } else { self.sparse_ok() && self.tmpset@.len() * 100 <= self.counts.2 }
    }
    pub open spec fn holds(&self, hs: Set<u64>) -> bool {
        &&& self.wf()
        &&& if self.registers is Some { regs_hold(true, self.regs(), hs, self.precision) && overflows(hs, self.precision, budget_of(self.precision)) }
            else { codes_hold(self.codes(), hs, self.precision) }
    }
    // what merging the temporary set leads to: the same codes, all in the
    // difference-encoded vector, or registers raised by all of them
    pub open spec fn merged(&self, o: &Self) -> bool {
        &&& self.wf() && self.same(o)
        &&& self.tmpset@ == Set::<u32>::empty()
        &&& self.registers is None ==> self.codes() == o.codes()
        &&& self.registers is Some ==> self.turned(o)
    }
    pub open spec fn turned(&self, o: &Self) -> bool {
        &&& self.registers is Some
        &&& exists|z: Seq<u32>| zero_regs(z, o.precision) && #[trigger] absorbs(self.regs(), z, o.codes(), o.precision)
        &&& exists|c: Seq<u32>| incr(c) && seq_set(c) == o.codes() && #[trigger] enc_from(0, c).len() > budget_of(o.precision)
    }
}
pub open spec fn zero_regs(z: Seq<u32>, p: u8) -> bool { z.len() == 1usize << p && forall|i: int| 0 <= i < z.len() ==> z[i] == 0 }
// ---- what the operations mean for the set of hash values
pub proof fn lemma_turned_hold(regs: Seq<u32>, z: Seq<u32>, codes: Set<u32>, hs: Set<u64>, p: u8)
    requires 4 <= p <= 18, zero_regs(z, p), absorbs(regs, z, codes, p), codes_hold(codes, hs, p)
    ensures regs_hold(true, regs, hs, p)
{
    lemma_hold_empty(true, z, p);
    lemma_absorb_hold(regs, z, codes, Set::empty(), hs, p);
    assert(Set::<u64>::empty().union(hs) =~= hs);
}
pub proof fn lemma_overflow_codes(c: Seq<u32>, codes: Set<u32>, hs: Set<u64>, p: u8, budget: int)
    requires incr(c), seq_set(c) == codes, enc_from(0, c).len() > budget, codes_hold(codes, hs, p)
    ensures overflows(hs, p, budget)
{
    assert forall|k: int| 0 <= k < c.len() implies exists|h: u64| #[trigger] hs.contains(h) && enc(h, p) == #[trigger] c[k] by {
        assert(seq_set(c).contains(c[k]));
    }
    assert(overflow_by(c, hs, p, budget));
}
pub proof fn lemma_merged_holds<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>, n: &HyperLogLogPlus<H, B>)
    requires n.merged(o), o.cfg_ok()
    ensures forall|hs: Set<u64>| #[trigger] codes_hold(o.codes(), hs, o.precision) ==> n.holds(hs)
{
    assert forall|hs: Set<u64>| #[trigger] codes_hold(o.codes(), hs, o.precision) implies n.holds(hs) by {
        if n.registers is Some {
            let z = choose|z: Seq<u32>| zero_regs(z, o.precision) && #[trigger] absorbs(n.regs(), z, o.codes(), o.precision);
            lemma_turned_hold(n.regs(), z, o.codes(), hs, o.precision);
            let c = choose|c: Seq<u32>| incr(c) && seq_set(c) == o.codes() && #[trigger] enc_from(0, c).len() > budget_of(o.precision);
            lemma_overflow_codes(c, o.codes(), hs, o.precision, budget_of(o.precision));
        }
    }
}
pub proof fn lemma_codes_insert(codes: Set<u32>, hs: Set<u64>, p: u8, h: u64)
    requires codes_hold(codes, hs, p)
    ensures codes_hold(codes.insert(enc(h, p)), hs.insert(h), p)
{
    let (c2, h2) = (codes.insert(enc(h, p)), hs.insert(h));
    assert forall|c: u32| #[trigger] c2.contains(c) implies exists|x: u64| #[trigger] h2.contains(x) && enc(x, p) == c by {
        if c == enc(h, p) { assert(h2.contains(h)); } else {
            assert(codes.contains(c));
            let x = choose|x: u64| #[trigger] hs.contains(x) && enc(x, p) == c;
            assert(h2.contains(x));
        }
    }
}
pub proof fn lemma_codes_union(ca: Set<u32>, cb: Set<u32>, ha: Set<u64>, hb: Set<u64>, p: u8)
    requires codes_hold(ca, ha, p), codes_hold(cb, hb, p)
    ensures codes_hold(ca.union(cb), ha.union(hb), p)
{
    let (c2, h2) = (ca.union(cb), ha.union(hb));
    assert forall|c: u32| #[trigger] c2.contains(c) implies exists|x: u64| #[trigger] h2.contains(x) && enc(x, p) == c by {
        if ca.contains(c) {
            let x = choose|x: u64| #[trigger] ha.contains(x) && enc(x, p) == c;
            assert(h2.contains(x));
        } else {
            assert(cb.contains(c));
            let x = choose|x: u64| #[trigger] hb.contains(x) && enc(x, p) == c;
            assert(h2.contains(x));
        }
    }
}
pub broadcast proof fn lemma_push_contains(s: Seq<u32>, v: u32, x: u32)
    ensures #[trigger] s.push(v).contains(x) <==> s.contains(x) || x == v
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(v)[i] == x); }
    if x == v { assert(s.push(v)[s.len() as int] == x); }
}
// position of an iterator whose front item has already been taken out
pub open spec fn at_pos(total: int, left: int, held: bool) -> int { total - left - (if held { 1int } else { 0 }) }
// the same sketch contents whatever the order of the operations
pub proof fn lemma_incr_unique(a: Seq<u32>, b: Seq<u32>)
    requires incr(a), incr(b), forall|x: u32| a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0])); assert(b.contains(a[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        assert(b.contains(b[0])); assert(a.contains(b[0]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0];
        if j > 0 { assert(b[0] < b[j]); if i > 0 { assert(a[0] < a[i]); } assert(false); }
        let (a1, b1) = (a.drop_first(), b.drop_first());
        assert forall|x: u32| a1.contains(x) <==> b1.contains(x) by {
            if a1.contains(x) {
                let k = choose|k: int| 0 <= k < a1.len() && a1[k] == x;
                assert(a[k + 1] == x); assert(a[0] < a[k + 1]); assert(a.contains(x)); assert(b.contains(x));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == x;
                assert(b1[m - 1] == x);
            }
            if b1.contains(x) {
                let k = choose|k: int| 0 <= k < b1.len() && b1[k] == x;
                assert(b[k + 1] == x); assert(b[0] < b[k + 1]); assert(b.contains(x)); assert(a.contains(x));
                let m = choose|m: int| 0 <= m < a.len() && a[m] == x;
                assert(a1[m - 1] == x);
            }
        }
        lemma_incr_unique(a1, b1);
        assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1);
    }
}
pub proof fn lemma_sub_enc(c: Seq<u32>, s: Seq<u32>)
    requires incr(c), incr(s), forall|k: int| 0 <= k < c.len() ==> s.contains(#[trigger] c[k])
    ensures enc_from(0, c).len() <= enc_from(0, s).len()
{ lemma_enc_mono(0, c, 0, s); }
// two sketches holding the same hash values, both without pending codes, are
// in the same representation with the same contents
pub proof fn lemma_plus_unique<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(a: &HyperLogLogPlus<H, B>, b: &HyperLogLogPlus<S, T>, hs: Set<u64>)
    requires a.holds(hs), b.holds(hs), a.precision == b.precision, a.tmpset@ == Set::<u32>::empty(), b.tmpset@ == Set::<u32>::empty()
    ensures a.registers is Some <==> b.registers is Some,
        a.registers is Some ==> a.regs() == b.regs(),
        a.registers is None ==> a.sparse@ == b.sparse@,
{
    let p = a.precision;
    if a.registers is Some && b.registers is Some {
        lemma_hold_unique(true, a.regs(), b.regs(), hs, p);
    } else if a.registers is None && b.registers is None {
        assert forall|x: u32| a.sparse@.contains(x) <==> b.sparse@.contains(x) by {
            assert(a.codes().contains(x) <==> a.sparse@.contains(x)) by { lemma_seq_set(a.sparse@, x); }
            assert(b.codes().contains(x) <==> b.sparse@.contains(x)) by { lemma_seq_set(b.sparse@, x); }
            if a.codes().contains(x) { let h = choose|h: u64| #[trigger] hs.contains(h) && enc(h, p) == x; assert(b.codes().contains(x)); }
            if b.codes().contains(x) { let h = choose|h: u64| #[trigger] hs.contains(h) && enc(h, p) == x; assert(a.codes().contains(x)); }
        }
        lemma_incr_unique(a.sparse@, b.sparse@);
    } else if a.registers is None {
        lemma_mixed(a, b, hs);
    } else {
        lemma_mixed(b, a, hs);
    }
}
pub proof fn lemma_mixed<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(a: &HyperLogLogPlus<H, B>, b: &HyperLogLogPlus<S, T>, hs: Set<u64>)
    requires a.holds(hs), b.holds(hs), a.precision == b.precision, a.tmpset@ == Set::<u32>::empty(), a.registers is None, b.registers is Some
    ensures false
{
    let p = a.precision;
    let c = choose|c: Seq<u32>| overflow_by(c, hs, p, budget_of(p));
    assert forall|k: int| 0 <= k < c.len() implies a.sparse@.contains(#[trigger] c[k]) by {
        let h = choose|h: u64| #[trigger] hs.contains(h) && enc(h, p) == c[k];
        assert(a.codes().contains(c[k]));
        lemma_seq_set(a.sparse@, c[k]);
    }
    lemma_sub_enc(c, a.sparse@);
}
pub proof fn lemma_turn<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>, n: &HyperLogLogPlus<H, B>, s: Seq<u32>, z: Seq<u32>)
    requires incr(s), seq_set(s) == o.codes(), enc_from(0, s).len() > budget_of(o.precision), n.registers is Some,
        zero_regs(z, o.precision), absorbs(n.regs(), z, seq_set(s), o.precision)
    ensures n.turned(o)
{ }
// the set of the first n elements
#[verifier::opaque]
pub open spec fn first(s: Seq<u32>, n: int) -> Set<u32> { seq_set(s.take(n)) }
pub proof fn lemma_first_push(s: Seq<u32>, n: int) requires 0 <= n < s.len() ensures first(s, n + 1) == first(s, n).insert(s[n])
{
    reveal(first);
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    assert forall|x: u32| seq_set(s.take(n + 1)).contains(x) <==> seq_set(s.take(n)).insert(s[n]).contains(x) by {
        lemma_push_contains(s.take(n), s[n], x);
        lemma_seq_set(s.take(n), x); lemma_seq_set(s.take(n + 1), x);
    }
    assert(seq_set(s.take(n + 1)) =~= seq_set(s.take(n)).insert(s[n]));
}
pub proof fn lemma_first_all(s: Seq<u32>) ensures first(s, s.len() as int) == seq_set(s), first(s, 0) == Set::<u32>::empty()
{ reveal(first); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<u32>::empty()); lemma_empty_codes(); }
// the same for a sequence of references
#[verifier::opaque]
pub open spec fn first_ref(s: Seq<&u32>, n: int) -> Set<u32> { first(s.map_values(|x: &u32| *x), n) }
pub proof fn lemma_first_ref_push(s: Seq<&u32>, n: int) requires 0 <= n < s.len() ensures first_ref(s, n + 1) == first_ref(s, n).insert(*s[n])
{ reveal(first_ref); lemma_first_push(s.map_values(|x: &u32| *x), n); }
pub proof fn lemma_first_ref_none(s: Seq<&u32>) ensures first_ref(s, 0) == Set::<u32>::empty()
{ reveal(first_ref); lemma_first_all(s.map_values(|x: &u32| *x)); }
pub proof fn lemma_first_ref_all(s: Seq<&u32>, t: Set<u32>)
    requires forall|k: int| 0 <= k < s.len() ==> t.contains(*(#[trigger] s[k])), forall|x: u32| #[trigger] t.contains(x) ==> exists|k: int| 0 <= k < s.len() && *s[k] == x
    ensures first_ref(s, s.len() as int) == t
{
    reveal(first_ref);
    let d = s.map_values(|x: &u32| *x);
    lemma_first_all(d);
    assert forall|x: u32| seq_set(d).contains(x) <==> t.contains(x) by {
        lemma_seq_set(d, x);
        if t.contains(x) { let k = choose|k: int| 0 <= k < s.len() && *s[k] == x; assert(d[k] == x); }
        if d.contains(x) { let k = choose|k: int| 0 <= k < d.len() && d[k] == x; assert(*s[k] == x); }
    }
    assert(seq_set(d) =~= t);
}
pub open spec fn below(regs: Seq<u32>, b: int) -> bool { forall|i: int| 0 <= i < regs.len() ==> #[trigger] regs[i] <= b }
pub proof fn lemma_empty_codes() ensures seq_set(Seq::<u32>::empty()) == Set::<u32>::empty()
{
    assert forall|x: u32| seq_set(Seq::<u32>::empty()).contains(x) <==> Set::<u32>::empty().contains(x) by { lemma_seq_set(Seq::<u32>::empty(), x); }
    assert(seq_set(Seq::<u32>::empty()) =~= Set::<u32>::empty());
}
//@endif
//@if HyperLogLogPlus
pub proof fn lemma_pow2_25() ensures 1usize << 25u8 == 0x200_0000 { assert(1usize << 25u8 == 0x200_0000) by (bit_vector); }
// merging two increasing sequences: b holds s up to i and t up to j, and is
// below what is left
#[verifier::opaque]
pub open spec fn merging(b: Seq<u32>, s: Seq<u32>, i: int, t: Seq<u32>, j: int) -> bool {
    &&& incr(b) && incr(s) && incr(t)
    &&& 0 <= i <= s.len() && 0 <= j <= t.len()
    &&& b.len() > 0 && i < s.len() ==> b.last() < s[i]
    &&& b.len() > 0 && j < t.len() ==> b.last() < t[j]
    &&& forall|k: int| 0 <= k < i ==> b.contains(#[trigger] s[k])
    &&& forall|k: int| 0 <= k < j ==> b.contains(#[trigger] t[k])
    &&& forall|x: u32| #[trigger] b.contains(x) ==> s.contains(x) || t.contains(x)
}
pub broadcast proof fn lemma_merging(b: Seq<u32>, s: Seq<u32>, i: int, t: Seq<u32>, j: int)
    requires #[trigger] merging(b, s, i, t, j)
    ensures 0 <= i <= s.len(), 0 <= j <= t.len(), b.len() > 0 && i < s.len() ==> b.last() < s[i], b.len() > 0 && j < t.len() ==> b.last() < t[j], b.len() <= 0x1_0000_0000, incr(b)
{ reveal(merging); lemma_incr_len(b); }
pub open spec fn next_of(v: u32, s: Seq<u32>, i: int, i2: int) -> bool { if i < s.len() && v == s[i] { i2 == i + 1 } else { i2 == i && (i < s.len() ==> v < s[i]) } }
pub broadcast proof fn lemma_merging_step(b: Seq<u32>, v: u32, s: Seq<u32>, i: int, t: Seq<u32>, j: int, i2: int, j2: int)
    requires #[trigger] merging(b, s, i, t, j), next_of(v, s, i, i2), next_of(v, t, j, j2), i2 > i || j2 > j
    ensures #[trigger] merging(b.push(v), s, i2, t, j2)
{
    reveal(merging);
    let n = b.push(v);
    broadcast use lemma_push_contains;
    assert forall|k: int, l: int| 0 <= k < l < n.len() implies n[k] < n[l] by { if k < b.len() - 1 && l == b.len() { assert(b[k] < b.last()); } }
    if i2 > i { assert(s.contains(s[i])); } else { assert(t.contains(t[j])); }
    if i2 < s.len() && i2 > i { assert(s[i] < s[i2]); }
    if j2 < t.len() && j2 > j { assert(t[j] < t[j2]); }
}
pub proof fn lemma_merging_start(s: Seq<u32>, t: Seq<u32>) requires incr(s), incr(t) ensures merging(Seq::empty(), s, 0, t, 0) { reveal(merging); }
pub proof fn lemma_merging_end(b: Seq<u32>, s: Seq<u32>, t: Seq<u32>)
    requires merging(b, s, s.len() as int, t, t.len() as int)
    ensures incr(b), forall|x: u32| b.contains(x) <==> s.contains(x) || t.contains(x)
{
    reveal(merging);
    assert forall|x: u32| b.contains(x) <==> s.contains(x) || t.contains(x) by {
        if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(b.contains(s[k])); }
        if t.contains(x) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(b.contains(t[k])); }
    }
}
pub proof fn lemma_sorted_incr(s: Seq<u32>)
    requires s.no_duplicates(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j]
    ensures incr(s)
{ }
pub proof fn lemma_buf_codes<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>, buf: Seq<u32>, set_codes: Seq<u32>)
    requires o.sparse_ok(),
        forall|x: u32| #[trigger] set_codes.contains(x) <==> o.tmpset@.contains(x),
        merging(buf, set_codes, set_codes.len() as int, o.sparse@, o.sparse@.len() as int),
    ensures incr(buf), seq_set(buf) == o.codes(), forall|x: u32| #[trigger] seq_set(buf).contains(x) ==> code_ok(x, o.precision)
{
    broadcast use lemma_seq_set;
    lemma_merging_end(buf, set_codes, o.sparse@);
    assert(seq_set(buf) =~= o.codes());
    assert forall|x: u32| #[trigger] seq_set(buf).contains(x) implies code_ok(x, o.precision) by { assert(o.codes().contains(x)); }
}
pub proof fn lemma_merge_done<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>, n: &HyperLogLogPlus<H, B>, buf: Seq<u32>)
    requires o.cfg_ok(), o.sparse_ok(), n.same(o), incr(buf), seq_set(buf) == o.codes(), n.tmpset@ == Set::<u32>::empty(),
        n.registers is None ==> n.sparse.wf() && n.sparse@ == buf && n.sparse.bytes().len() <= n.counts.2,
        n.registers is Some ==> n.dense_ok() && enc_from(0, buf).len() > n.counts.2
            && exists|z: Seq<u32>| zero_regs(z, o.precision) && #[trigger] absorbs(n.regs(), z, seq_set(buf), o.precision),
    ensures n.merged(o)
{
    lemma_empty_codes();
    if n.registers is None {
        assert(n.codes() =~= seq_set(buf));
    }
}
// nothing pending: nothing to merge
pub proof fn lemma_merge_nothing<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>)
    ensures o.cfg_ok() && o.registers is None && o.sparse_ok() && o.tmpset@.len() == 0 ==> o.merged(o)
{
    if o.cfg_ok() && o.registers is None && o.sparse_ok() && o.tmpset@.len() == 0 { assert(o.tmpset@ =~= Set::empty()); }
}
//@endif
//@if HyperLogLogPlus
// ---- broadcast facts
pub broadcast proof fn lemma_merged_holds_b<H: Hash + ?Sized, B: BuildHasher>(o: HyperLogLogPlus<H, B>, n: HyperLogLogPlus<H, B>)
    requires #[trigger] n.merged(&o), o.cfg_ok()
    ensures forall|hs: Set<u64>| #[trigger] codes_hold(o.codes(), hs, o.precision) ==> n.holds(hs)
{ lemma_merged_holds(&o, &n); }
pub broadcast proof fn lemma_insert_union(a: Set<u32>, b: Set<u32>, x: u32)
    ensures #[trigger] a.insert(x).union(b) == a.union(b).insert(x)
{ assert(a.insert(x).union(b) =~= a.union(b).insert(x)); }
pub broadcast proof fn lemma_empty_union(b: Set<u32>)
    ensures #[trigger] Set::<u32>::empty().union(b) == b
{ assert(Set::<u32>::empty().union(b) =~= b); }
pub broadcast proof fn lemma_set_len_b(s: Set<u32>) ensures #[trigger] s.len() <= 0x1_0000_0000 { lemma_set_len(s); }
pub broadcast group group_plus { lemma_merged_holds_b, lemma_insert_union, lemma_empty_union, lemma_set_len_b }

pub proof fn lemma_plus_insert<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>, n: &HyperLogLogPlus<H, B>, h: u64)
    requires o.wf(), n.same(o), n.wf(),
        o.registers is Some ==> n.registers is Some && n.regs() == raise(o.regs(), idx64(h, o.precision), rank64(h, o.precision)),
        o.registers is None ==> (n.registers is None && n.codes() == o.codes().insert(enc(h, o.precision)))
            || (forall|hs: Set<u64>| #[trigger] codes_hold(o.codes().insert(enc(h, o.precision)), hs, o.precision) ==> n.holds(hs)),
    ensures forall|hs: Set<u64>| #[trigger] o.holds(hs) ==> n.holds(hs.insert(h)),
{
    let p = o.precision;
    assert forall|hs: Set<u64>| #[trigger] o.holds(hs) implies n.holds(hs.insert(h)) by {
        if o.registers is Some {
            lemma_hash64(h, p);
            lemma_hold_insert(true, o.regs(), hs, p, h);
            lemma_overflow_mono(hs, hs.insert(h), p, budget_of(p));
        } else {
            lemma_codes_insert(o.codes(), hs, p, h);
        }
    }
}
pub proof fn lemma_union_insert(a: Set<u32>, b: Set<u32>, x: u32) ensures a.union(b.insert(x)) == a.union(b).insert(x)
{ assert(a.union(b.insert(x)) =~= a.union(b).insert(x)); }
// merge, sparse into sparse: the pending codes are joined
pub proof fn lemma_merge_ss<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(o: &HyperLogLogPlus<H, B>, x: &HyperLogLogPlus<S, T>, n: &HyperLogLogPlus<H, B>)
    requires o.wf(), x.wf(), o.precision == x.precision, o.registers is None, x.registers is None, n.same(o), n.registers is None,
        n.sparse == o.sparse, 
        forall|c: u32| #[trigger] n.tmpset@.contains(c) <==> o.tmpset@.contains(c) || x.tmpset@.contains(c) || x.sparse@.contains(c)
    ensures n.cfg_ok(), n.sparse_ok(), n.codes() == o.codes().union(x.codes()),
        forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) ==> codes_hold(n.codes(), a.union(b), o.precision)
{
    broadcast use lemma_seq_set;
    assert(n.codes() =~= o.codes().union(x.codes()));
    assert forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) implies codes_hold(n.codes(), a.union(b), o.precision) by {
        lemma_codes_union(o.codes(), x.codes(), a, b, o.precision);
    }
}
// merge, sparse into normal
pub proof fn lemma_merge_ds<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(o: &HyperLogLogPlus<H, B>, x: &HyperLogLogPlus<S, T>, n: &HyperLogLogPlus<H, B>)
    requires o.wf(), x.wf(), o.precision == x.precision, o.registers is Some, x.registers is None, n.same(o), n.registers is Some, n.wf(),
        absorbs(n.regs(), o.regs(), x.codes(), o.precision)
    ensures forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) ==> n.holds(a.union(b))
{
    let p = o.precision;
    assert forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) implies n.holds(a.union(b)) by {
        lemma_absorb_hold(n.regs(), o.regs(), x.codes(), a, b, p);
        lemma_overflow_mono(a, a.union(b), p, budget_of(p));
    }
}
// merge, normal into anything: base is self's registers, converted if it was sparse
pub open spec fn base_of<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPlus<H, B>, base: Seq<u32>) -> bool {
    if o.registers is Some { base == o.regs() } else { exists|z: Seq<u32>| zero_regs(z, o.precision) && #[trigger] absorbs(base, z, o.codes(), o.precision) }
}
pub proof fn lemma_merge_xd<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(o: &HyperLogLogPlus<H, B>, x: &HyperLogLogPlus<S, T>, n: &HyperLogLogPlus<H, B>, base: Seq<u32>)
    requires o.wf(), x.wf(), o.precision == x.precision, x.registers is Some, n.same(o), n.registers is Some, n.wf(),
        base_of(o, base), base.len() == 1usize << o.precision, n.regs() == max_regs(base, x.regs())
    ensures forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) ==> n.holds(a.union(b))
{
    let p = o.precision;
    assert forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) implies n.holds(a.union(b)) by {
        if o.registers is None {
            let z = choose|z: Seq<u32>| zero_regs(z, p) && #[trigger] absorbs(base, z, o.codes(), p);
            lemma_turned_hold(base, z, o.codes(), a, p);
        }
        lemma_hold_union(true, base, x.regs(), a, b, p);
        lemma_overflow_mono(b, a.union(b), p, budget_of(p));
    }
}
// ===================================================================
// the estimate
// ===================================================================
pub open spec fn threshold_spec(p: u8) -> F64 {
    if p == 4 { f_lit(0x4024000000000000) } // 10
    else if p == 5 { f_lit(0x4034000000000000) } // 20
    else if p == 6 { f_lit(0x4044000000000000) } // 40
    else if p == 7 { f_lit(0x4054000000000000) } // 80
    else if p == 8 { f_lit(0x406b800000000000) } // 220
    else if p == 9 { f_lit(0x4079000000000000) } // 400
    else if p == 10 { f_lit(0x408c200000000000) } // 900
    else if p == 11 { f_lit(0x409c200000000000) } // 1800
    else if p == 12 { f_lit(0x40a8380000000000) } // 3100
    else if p == 13 { f_lit(0x40b9640000000000) } // 6500
    else if p == 14 { f_lit(0x40c6760000000000) } // 11500
    else if p == 15 { f_lit(0x40d3880000000000) } // 20000
    else if p == 16 { f_lit(0x40e86a0000000000) } // 50000
    else if p == 17 { f_lit(0x40fd4c0000000000) } // 120000
    else { f_lit(0x41155cc000000000) } // 350000
}

pub open spec fn ords(est: Seq<F64>, raw: F64) -> Seq<Ordering> { est.map_values(|e: F64| f_cmp(e, raw)->Some_0) }
pub open spec fn found_at(r: Result<usize, usize>) -> int { match r { Ok(i) => i as int, Err(i) => i as int } }
// linear interpolation between the points i-1 and i of the tables
pub open spec fn interp(est: Seq<F64>, bias: Seq<F64>, i: int, raw: F64) -> F64 {
    f_add(bias[i - 1], f_mul(f_div(f_sub(raw, est[i - 1]), f_sub(est[i], est[i - 1])), f_sub(bias[i], bias[i - 1])))
}
pub open spec fn bias_spec(p: u8, raw: F64) -> F64 {
    let est = raw_table()[p - 4];
    let bias = bias_table()[p - 4];
    if f_le(raw, est[0]) { bias[0] } else if f_le(est.last(), raw) { bias.last() }
    else { interp(est, bias, found_at(bs_res(ords(est, raw))), raw) }
}
// the interpolation points enclose raw
pub open spec fn encloses(est: Seq<F64>, i: int, raw: F64) -> bool {
    1 <= i < est.len() && (f_cmp(est[i], raw) == Some(Ordering::Equal) || (f_lt(est[i - 1], raw) && f_lt(raw, est[i])))
}
pub proof fn lemma_encloses(p: u8, raw: F64)
    requires 4 <= p <= 18, f_ord(raw), !f_le(raw, raw_table()[p - 4][0]), !f_le(raw_table()[p - 4].last(), raw)
    ensures encloses(raw_table()[p - 4], found_at(bs_res(ords(raw_table()[p - 4], raw))), raw)
{
    lemma_tables(p);
    let est = raw_table()[p - 4];
    let o = ords(est, raw);
    lemma_bs(o);
    broadcast use axiom_f_cmp, axiom_f_rev;
    assert(o[0] == f_cmp(est[0], raw)->Some_0);
    assert(o[est.len() - 1] == f_cmp(est.last(), raw)->Some_0);
    let i = found_at(bs_res(o));
    if i > 0 { assert(o[i - 1] == f_cmp(est[i - 1], raw)->Some_0); }
    if i < est.len() { assert(o[i] == f_cmp(est[i], raw)->Some_0); }
}
pub open spec fn dense_spec(regs: Seq<u32>, m: int, p: u8) -> F64 {
    let zeros = count_zeros(regs);
    let raw = raw_spec(regs, m);
    if zeros != 0 && f_le(linear_spec(m, zeros as int), threshold_spec(p)) { linear_spec(m, zeros as int) }
    else if f_le(raw, f_mul(f_lit(0x4014000000000000), f_int(m))) { f_sub(raw, bias_spec(p, raw)) }   // raw <= 5 m
    else { raw }
}
impl<H, B> HyperLogLogPlus<H, B> where H: Hash + ?Sized, B: BuildHasher {
    pub open spec fn estimate(&self) -> F64 {
        if self.registers is Some { dense_spec(self.regs(), self.counts.0 as int, self.precision) }
        else { linear_spec(0x200_0000, 0x200_0000 - self.sparse@.len()) }
    }
}
// the estimate is a function of the set of hash values alone
pub proof fn theorem_plus_estimate<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(a: &HyperLogLogPlus<H, B>, b: &HyperLogLogPlus<S, T>, hs: Set<u64>)
    requires a.holds(hs), b.holds(hs), a.precision == b.precision, a.tmpset@ == Set::<u32>::empty(), b.tmpset@ == Set::<u32>::empty()
    ensures a.estimate() == b.estimate()
{ lemma_plus_unique(a, b, hs); }
// a copy: the same contents field by field (see theorem_pf_copy)
pub open spec fn plus_copy<H: Hash + ?Sized, B: BuildHasher>(a: &HyperLogLogPlus<H, B>, b: &HyperLogLogPlus<H, B>) -> bool {
    &&& a.builder == b.builder && a.precision == b.precision && a.counts == b.counts
    &&& a.tmpset@ == b.tmpset@
    &&& a.sparse.buf.0@ == b.sparse.buf.0@ && a.sparse.count == b.sparse.count && a.sparse.last == b.sparse.last
    &&& (a.registers is Some) == (b.registers is Some)
    &&& a.registers is Some ==> {
        let (r, s) = (a.registers->Some_0, b.registers->Some_0);
        r.buf@ == s.buf@ && r.count == s.count && r.zeros == s.zeros
    }
}
pub proof fn theorem_plus_copy<H: Hash + ?Sized, B: BuildHasher>(a: &HyperLogLogPlus<H, B>, b: &HyperLogLogPlus<H, B>)
    requires plus_copy(a, b)
    ensures a.same(b), a.codes() == b.codes(), a.sparse@ == b.sparse@, a.registers is Some ==> a.regs() == b.regs(),
        a.wf() == b.wf(), forall|hs: Set<u64>| #[trigger] a.holds(hs) == b.holds(hs), a.estimate() == b.estimate()
{
    if a.registers is Some { assert(a.regs() =~= b.regs()); }
    assert(a.sparse.bytes() == b.sparse.bytes());
    assert(a.sparse@ == b.sparse@ && a.sparse.wf() == b.sparse.wf());
    assert(a.codes() == b.codes());
    assert(a.cfg_ok() == b.cfg_ok());
    if a.registers is Some {
        assert(a.registers->Some_0.wf() == b.registers->Some_0.wf());
        assert(a.dense_ok() == b.dense_ok());
        assert(a.wf() == b.wf());
    } else {
        assert(a.sparse_ok() == b.sparse_ok());
        assert(a.wf() == b.wf());
    }
    assert forall|hs: Set<u64>| #[trigger] a.holds(hs) == b.holds(hs) by { }
}
//@endif

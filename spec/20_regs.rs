// ===================================================================
// packed registers
// ===================================================================
pub open spec fn count_zeros(s: Seq<u32>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { count_zeros(s.drop_last()) + (if s.last() == 0 { 1nat } else { 0 }) }
}
pub proof fn lemma_count_zeros_update(s: Seq<u32>, i: int, v: u32)
    requires 0 <= i < s.len()
    ensures count_zeros(s.update(i, v)) == count_zeros(s) + (if v == 0 { 1int } else { 0 }) - (if s[i] == 0 { 1int } else { 0 }),
        count_zeros(s) <= s.len(), s[i] == 0 ==> count_zeros(s) >= 1,
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.update(i, v).drop_last() =~= s.drop_last());
        lemma_count_zeros_le(s.drop_last());
    } else {
        assert(s.update(i, v).drop_last() =~= s.drop_last().update(i, v));
        lemma_count_zeros_update(s.drop_last(), i, v);
    }
}
pub proof fn lemma_count_zeros_le(s: Seq<u32>) ensures count_zeros(s) <= s.len() decreases s.len() {
    if s.len() > 0 { lemma_count_zeros_le(s.drop_last()); }
}
pub proof fn lemma_count_zeros_all(s: Seq<u32>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures count_zeros(s) == s.len() decreases s.len() {
    if s.len() > 0 { lemma_count_zeros_all(s.drop_last()); }
}
pub proof fn lemma_ceil(a: int, b: int)
    requires a >= 0, b > 0
    ensures ceil_div(a, b) == (if a % b == 0 { a / b } else { a / b + 1 }), a > 0 ==> ceil_div(a, b) == (a - 1) / b + 1, ceil_div(a, b) <= a + 1
{
    let (q, r) = (a / b, a % b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, b);
    assert(b * (q + 1) == b * q + b) by (nonlinear_arith);
    assert(q <= a) by (nonlinear_arith) requires b >= 1, q >= 0, a == b * q + r, r >= 0;
    if r == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q, b - 1);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q + 1, r - 1);
    }
    if a > 0 {
        if r == 0 {
            assert(b * q == b * (q - 1) + b) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a - 1, b, q - 1, b - 1);
        } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a - 1, b, q, r - 1); }
    }
}
pub open spec fn ceil_div(a: int, b: int) -> int { (a + b - 1) / b }

pub proof fn lemma_flat_index<T>(s: Seq<SeqIter<T>>, c: int, i: int)
    requires c > 0, forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@.len() == c,
    ensures flat(s).len() == s.len() * c, 0 <= i < s.len() * c ==> flat(s)[i] == s[i / c]@[i % c] && 0 <= i / c < s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k])@.len() == c by { assert(t[k] == s[k + 1]); }
        lemma_flat_index(t, c, i - c);
        assert(s.len() * c == c + t.len() * c) by (nonlinear_arith) requires t.len() == s.len() - 1;
        if 0 <= i < s.len() * c {
            if i < c {
                assert(i / c == 0 && i % c == i) by (nonlinear_arith) requires 0 <= i < c;
            } else {
                assert(i / c == (i - c) / c + 1 && i % c == (i - c) % c) by (nonlinear_arith) requires c <= i, c > 0;
            }
        }
    }
}

//@template Registers 5 6 31; RegistersPlus 6 5 63
impl $T {
    // the i-th field of a word
    pub open spec fn field(w: u32, i: int) -> u32 { (w >> ((i * $1) as usize)) & $3u32 }
    // the registers, as a sequence
    pub closed spec fn regs(&self) -> Seq<u32> { Seq::new(self.count as nat, |i: int| Self::field(self.buf@[i / $2], i % $2)) }
    pub open spec fn wf(&self) -> bool {
        &&& self.count <= 0x4_0000
        &&& self.buf@.len() == ceil_div(self.count as int, $2)
        &&& self.zeros == count_zeros(self.regs())
        &&& self.regs().len() == self.count
        &&& forall|i: int| 0 <= i < self.count ==> #[trigger] self.regs()[i] <= $3
    }
    pub proof fn lemma_field_bound(w: u32, i: int) ensures Self::field(w, i) <= $3 {
        let s = (i * $1) as usize;
        assert((w >> s) & $3u32 <= $3u32) by (bit_vector);
    }
    pub proof fn lemma_pos(r: &Self, i: usize)
        requires r.wf(), i < r.count
        ensures i / $2 < r.buf@.len(), i % $2 < $2, r.regs()[i as int] == Self::field(r.buf@[i as int / $2], i as int % $2), r.regs()[i as int] <= $3,
            (i % $2) * $1 < 32, r.regs()[i as int] == 0 ==> r.zeros >= 1,
    { lemma_count_zeros_update(r.regs(), i as int, 0); Self::lemma_field_bound(r.buf@[i as int / $2], i as int % $2); }
    pub proof fn lemma_zeros(s: Seq<u32>, i: int, v: u32)
        requires 0 <= i < s.len()
        ensures count_zeros(s.update(i, v)) == count_zeros(s) + (if v == 0 { 1int } else { 0 }) - (if s[i] == 0 { 1int } else { 0 }),
            count_zeros(s) <= s.len(), s[i] == 0 ==> count_zeros(s) >= 1,
    { lemma_count_zeros_update(s, i, v); }
    pub proof fn lemma_fresh(r: Self)
        requires r.count <= 0x4_0000, r.buf@.len() == ceil_div(r.count as int, $2), forall|k: int| 0 <= k < r.buf@.len() ==> r.buf@[k] == 0, r.zeros == r.count
        ensures r.wf(), forall|i: int| 0 <= i < r.count ==> r.regs()[i] == 0,
    {
        assert forall|i: int| 0 <= i < r.count implies #[trigger] r.regs()[i] == 0 by {
            let s = ((i % $2) * $1) as usize;
            assert((0u32 >> s) & $3u32 == 0) by (bit_vector);
        }
        lemma_count_zeros_all(r.regs());
    }
    // writing a field that is zero
    pub proof fn lemma_or(w: u32, rm: usize, v: u32)
        requires rm < $2, v <= $3
        ensures Self::field(w, rm as int) == 0 ==> {
            let w2 = w | (v << ((rm * $1) as usize));
            &&& Self::field(w2, rm as int) == v
            &&& forall|j: int| 0 <= j < $2 && j != rm ==> Self::field(w2, j) == Self::field(w, j)
        }
    {
        let s = (rm * $1) as usize;
        if Self::field(w, rm as int) == 0 {
            let w2 = w | (v << s);
            assert(rm < $2 && s == rm * $1 && (w >> s) & $3u32 == 0 && v <= $3u32 ==> ((w | (v << s)) >> s) & $3u32 == v) by (bit_vector);
            assert forall|j: int| 0 <= j < $2 && j != rm implies Self::field(w2, j) == Self::field(w, j) by {
                let j2 = j as usize;
                let t = (j * $1) as usize;
                assert(rm < $2 && j2 < $2 && j2 != rm && s == rm * $1 && t == j2 * $1 && v <= $3u32 ==> ((w | (v << s)) >> t) & $3u32 == (w >> t) & $3u32) by (bit_vector);
            }
        }
    }
    // overwriting a field
    pub proof fn lemma_mask(w: u32, rm: usize, v: u32)
        requires rm < $2, v <= $3
        ensures ({
            let m = $3u32 << ((rm * $1) as usize);
            let w2 = (w & !m) | (v << ((rm * $1) as usize));
            &&& Self::field(w2, rm as int) == v
            &&& forall|j: int| 0 <= j < $2 && j != rm ==> Self::field(w2, j) == Self::field(w, j)
        })
    {
        let s = (rm * $1) as usize;
        let m = $3u32 << s;
        let w2 = (w & !m) | (v << s);
        assert(rm < $2 && s == rm * $1 && v <= $3u32 ==> (((w & !($3u32 << s)) | (v << s)) >> s) & $3u32 == v) by (bit_vector);
        assert forall|j: int| 0 <= j < $2 && j != rm implies Self::field(w2, j) == Self::field(w, j) by {
            let j2 = j as usize;
            let t = (j * $1) as usize;
            assert(rm < $2 && j2 < $2 && j2 != rm && s == rm * $1 && t == j2 * $1 && v <= $3u32 ==> (((w & !($3u32 << s)) | (v << s)) >> t) & $3u32 == (w >> t) & $3u32) by (bit_vector);
        }
    }
    // from one changed word to the whole array
    pub proof fn lemma_set(o: Self, n: Self, index: usize, value: u32)
        requires o.wf(), index < o.count, value <= $3, n.count == o.count, n.buf@.len() == o.buf@.len(),
            forall|k: int| 0 <= k < o.buf@.len() && k != index as int / $2 ==> n.buf@[k] == o.buf@[k],
            ({
                let v = if value > o.regs()[index as int] { value } else { o.regs()[index as int] };
                let (w, w2) = (o.buf@[index as int / $2], n.buf@[index as int / $2]);
                &&& Self::field(w2, index as int % $2) == v
                &&& forall|j: int| 0 <= j < $2 && j != index as int % $2 ==> Self::field(w2, j) == Self::field(w, j)
                &&& n.zeros == count_zeros(o.regs().update(index as int, v))
            }),
        ensures n.wf(), n.regs() == o.regs().update(index as int, if value > o.regs()[index as int] { value } else { o.regs()[index as int] }),
    {
        let v = if value > o.regs()[index as int] { value } else { o.regs()[index as int] };
        assert forall|i: int| 0 <= i < o.count implies #[trigger] n.regs()[i] == o.regs().update(index as int, v)[i] by {
            if i / $2 == index as int / $2 {
                if i % $2 == index as int % $2 { assert(i == index); }
            }
        }
        assert(n.regs() =~= o.regs().update(index as int, v));
    }
    pub proof fn lemma_iter(r: &Self, it: SeqIter<u32>)
        requires r.wf(), exists|p: Seq<SeqIter<u32>>| {
            &&& p.len() == r.buf@.len()
            &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k])@.len() == $2 && forall|j: int| 0 <= j < $2 ==> (#[trigger] p[k]@[j]) == Self::field(r.buf@[k], j)
            &&& it@ == take_upto(#[trigger] flat(p), r.count as int)
        }
        ensures it@ == r.regs()
    {
        let p = choose|p: Seq<SeqIter<u32>>| {
            &&& p.len() == r.buf@.len()
            &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k])@.len() == $2 && forall|j: int| 0 <= j < $2 ==> (#[trigger] p[k]@[j]) == Self::field(r.buf@[k], j)
            &&& it@ == take_upto(#[trigger] flat(p), r.count as int)
        };
        lemma_flat_index(p, $2, 0);
        assert forall|i: int| 0 <= i < r.count implies it@[i] == r.regs()[i] by { lemma_flat_index(p, $2, i); }
        assert(it@ =~= r.regs());
    }
}
//@endtemplate

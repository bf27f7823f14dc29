//@if DifIntVec
// ===================================================================
// variable-length integers and difference encoding
// ===================================================================
// seven bits per byte, low bits first, the high bit marks a continuation
pub open spec fn vint(x: int) -> Seq<u8> decreases x {
    if x < 128 { seq![x as u8] } else { seq![(x % 128 + 128) as u8] + vint(x / 128) }
}
// value and length of the integer at the front of b
pub open spec fn dec1(b: Seq<u8>) -> (int, int) decreases b.len() {
    if b.len() == 0 { (0, 1) } else if b[0] < 128 { (b[0] as int, 1) }
    else { let r = dec1(b.skip(1)); (b[0] % 128 + 128 * r.0, r.1 + 1) }
}
pub open spec fn enc_from(last: int, s: Seq<u32>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { vint(s[0] - last) + enc_from(s[0] as int, s.drop_first()) }
}
pub open spec fn dec_from(last: int, b: Seq<u8>) -> Seq<u32> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else {
        let r = dec1(b);
        let v = last + r.0;
        if r.1 < 1 || r.1 > b.len() { Seq::empty() } else { seq![v as u32] + dec_from(v, b.skip(r.1)) }
    }
}
// non-decreasing, starting at or above last
pub open spec fn ascends(last: int, s: Seq<u32>) -> bool decreases s.len() {
    s.len() == 0 || (last <= s[0] && ascends(s[0] as int, s.drop_first()))
}
pub open spec fn last_of(last: int, s: Seq<u32>) -> int { if s.len() == 0 { last } else { s.last() as int } }
pub open spec fn incr(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn pow128(i: int) -> int { if i <= 0 { 1 } else if i == 1 { 128 } else if i == 2 { 16384 } else if i == 3 { 2097152 } else { 268435456 } }

pub proof fn lemma_vint_len(x: int)
    requires 0 <= x
    ensures vint(x).len() >= 1, x < 128 ==> vint(x).len() == 1, 128 <= x < 16384 ==> vint(x).len() == 2, 16384 <= x < 2097152 ==> vint(x).len() == 3,
        2097152 <= x < 268435456 ==> vint(x).len() == 4, 268435456 <= x <= 0xffff_ffff ==> vint(x).len() == 5
    decreases x
{ if x >= 128 { lemma_vint_len(x / 128); } }
// prefix property of the code
pub proof fn lemma_dec1(x: int, rest: Seq<u8>)
    requires 0 <= x
    ensures dec1(vint(x) + rest) == (x, vint(x).len() as int)
    decreases x
{
    let b = vint(x) + rest;
    if x >= 128 {
        assert(b.skip(1) =~= vint(x / 128) + rest);
        lemma_dec1(x / 128, rest);
        assert(b[0] == (x % 128 + 128) as u8);
    }
}
pub proof fn lemma_dec_from(last: int, s: Seq<u32>)
    requires 0 <= last, ascends(last, s)
    ensures dec_from(last, enc_from(last, s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let x = s[0] - last;
        let rest = enc_from(s[0] as int, s.drop_first());
        lemma_dec1(x, rest);
        lemma_vint_len(x);
        let b = enc_from(last, s);
        assert(b.skip(vint(x).len() as int) =~= rest);
        lemma_dec_from(s[0] as int, s.drop_first());
        assert(seq![s[0]] + s.drop_first() =~= s);
    } 
}
pub proof fn lemma_enc_push(last: int, s: Seq<u32>, v: u32)
    requires ascends(last, s), last_of(last, s) <= v
    ensures enc_from(last, s.push(v)) == enc_from(last, s) + vint(v - last_of(last, s)), ascends(last, s.push(v))
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(v).drop_first() =~= Seq::empty());
        assert(ascends(v as int, s.push(v).drop_first()));
        assert(enc_from(v as int, Seq::empty()) =~= Seq::empty());
        assert(enc_from(last, s) =~= Seq::<u8>::empty());
        assert(enc_from(last, s.push(v)) =~= enc_from(last, s) + vint(v - last));
    } else {
        assert(s.push(v).drop_first() =~= s.drop_first().push(v));
        lemma_enc_push(s[0] as int, s.drop_first(), v);
        assert(enc_from(last, s.push(v)) =~= enc_from(last, s) + vint(v - last_of(last, s)));
    }
}
pub proof fn lemma_enc_len(last: int, s: Seq<u32>)
    requires ascends(last, s)
    ensures enc_from(last, s).len() >= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_vint_len(s[0] - last); lemma_enc_len(s[0] as int, s.drop_first()); } }
pub proof fn lemma_incr_ascends(last: int, s: Seq<u32>)
    requires incr(s), s.len() > 0 ==> last <= s[0]
    ensures ascends(last, s)
    decreases s.len()
{ if s.len() > 0 { assert(incr(s.drop_first())); lemma_incr_ascends(s[0] as int, s.drop_first()); } }
pub proof fn lemma_incr_len(s: Seq<u32>) requires incr(s) ensures s.len() > 0 ==> s.len() <= s.last() + 1, s.len() <= 0x1_0000_0000 decreases s.len() {
    if s.len() > 0 { assert(incr(s.drop_last())); lemma_incr_len(s.drop_last()); if s.len() > 1 { assert(s[s.len() - 2] < s[s.len() - 1]); } }
}
// one decoding step: bits of byte i
pub proof fn lemma_dec_step(val: u32, b: u8, i: usize)
    requires i <= 4, val < pow128(i as int), i == 4 ==> (b & 127) < 16
    ensures
        val | (((b as u32) & 127u32) << ((i * 7) as usize)) == val + pow128(i as int) * ((b % 128) as int),
        b < 128 ==> val | ((b as u32) << ((i * 7) as usize)) == val + pow128(i as int) * (b as int),
        i < 4 ==> val + pow128(i as int) * ((b % 128) as int) < pow128(i + 1),
{
    let s = (i * 7) as usize;
    assert(b & 127 == b % 128) by (bit_vector);
    assert(((b as u32) & 127u32) == (b % 128) as u32) by (bit_vector);
    if i == 0 { assert(s == 0 && val < 1 ==> val | (((b as u32) & 127u32) << s) == val + ((b as u32) & 127u32) && (b < 128 ==> val | ((b as u32) << s) == val + b as u32)) by (bit_vector); }
    else if i == 1 { assert(s == 7 && val < 128 ==> val | (((b as u32) & 127u32) << s) == val + 128 * ((b as u32) & 127u32) && (b < 128 ==> val | ((b as u32) << s) == val + 128 * (b as u32))) by (bit_vector); }
    else if i == 2 { assert(s == 14 && val < 16384 ==> val | (((b as u32) & 127u32) << s) == val + 16384 * ((b as u32) & 127u32) && (b < 128 ==> val | ((b as u32) << s) == val + 16384 * (b as u32))) by (bit_vector); }
    else if i == 3 { assert(s == 21 && val < 2097152 ==> val | (((b as u32) & 127u32) << s) == val + 2097152 * ((b as u32) & 127u32) && (b < 128 ==> val | ((b as u32) << s) == val + 2097152 * (b as u32))) by (bit_vector); }
    else { assert(s == 28 && val < 268435456 && (b & 127) < 16 ==> val | (((b as u32) & 127u32) << s) == val + 268435456 * ((b as u32) & 127u32) && (b < 128 ==> val | ((b as u32) << s) == val + 268435456 * (b as u32))) by (bit_vector); }
}
// one encoding step
pub proof fn lemma_enc_step(v: u32)
    ensures (v & !127u32 != 0) == (v >= 128), v >= 128 ==> ((v & 127u32) as u8 | 128u8) == (v % 128 + 128) as u8, v < 128 ==> (v & 127u32) as u8 == v as u8,
        v >> 7 == v / 128, (v & 127u32) == v % 128, !127u32 == 4294967168u32, (v & 4294967168u32 != 0) == (v >= 128),
{
    assert(!127u32 == 4294967168u32) by (bit_vector);
    assert((v & 127u32) == v % 128) by (bit_vector);
    assert((v & !127u32 != 0) == (v >= 128)) by (bit_vector);
    assert(((v & 127u32) as u8 | 128u8) == (v % 128 + 128) as u8) by (bit_vector);
    assert(v < 128 ==> (v & 127u32) as u8 == v as u8) by (bit_vector);
    assert(v >> 7 == v / 128) by (bit_vector);
}
pub proof fn lemma_dec1_bound(b: Seq<u8>)
    ensures dec1(b).0 >= 0, dec1(b).1 >= 1
    decreases b.len()
{ if b.len() > 0 && b[0] >= 128 { lemma_dec1_bound(b.skip(1)); } }

pub proof fn lemma_dec1_front(b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures
        b[i] < 128 ==> dec1(b.skip(i)) == (b[i] as int, 1int),
        b[i] >= 128 ==> dec1(b.skip(i)).0 == b[i] % 128 + 128 * dec1(b.skip(i + 1)).0 && dec1(b.skip(i)).1 == dec1(b.skip(i + 1)).1 + 1,
        (b[i] & 128u8 != 0) == (b[i] >= 128), dec1(b.skip(i)).1 >= 1, dec1(b.skip(i)).0 >= 0, dec1(b.skip(i + 1)).1 >= 1,
{
    lemma_dec1_bound(b.skip(i + 1));
    lemma_skip_skip(b, i, 1);
    lemma_dec1_bound(b.skip(i));
    let x = b[i];
    assert((x & 128u8 != 0) == (x >= 128)) by (bit_vector);
}
// what the bound on the whole value says about byte i
pub proof fn lemma_dec_top(val: int, b: Seq<u8>, k: int, i: int, d: int)
    requires 0 <= k < b.len(), 0 <= i <= 4, 0 <= val < pow128(i), d == val + pow128(i) * dec1(b.skip(k)).0, d <= u32::MAX
    ensures i == 4 ==> (b[k] & 127) < 16, i == 4 ==> b[k] < 16 || b[k] >= 128,
        b[k] >= 128 ==> i < 4 ==> d == (val + pow128(i) * (b[k] % 128)) + pow128(i + 1) * dec1(b.skip(k + 1)).0,
        i < 4 ==> pow128(i + 1) == pow128(i) * 128,
{
    lemma_dec1_front(b, k);
    let x = b[k];
    let v = dec1(b.skip(k)).0;
    if i == 4 { assert(268435456 * v <= u32::MAX); assert(v < 16) by (nonlinear_arith) requires 268435456 * v <= u32::MAX; }
    if x >= 128 {
        let w = dec1(b.skip(k + 1)).0;
        lemma_dec1_bound(b.skip(k + 1));
        let q = pow128(i);
        assert(q * (x % 128 + 128 * w) == q * (x % 128) + (q * 128) * w) by (nonlinear_arith);
        if i == 4 { assert(x % 128 < 16); }
    }
    assert((x & 127) == x % 128) by (bit_vector);
}
impl VarIntVec {
    pub open spec fn bytes(&self) -> Seq<u8> { self.0@ }
}
// the numbers of a VarIntVec, one after the other
pub open spec fn enc_all(s: Seq<u32>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { vint(s[0] as int) + enc_all(s.drop_first()) }
}
pub open spec fn dec_all(b: Seq<u8>) -> Seq<u32> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else {
        let r = dec1(b);
        if r.1 < 1 || r.1 > b.len() { Seq::empty() } else { seq![r.0 as u32] + dec_all(b.skip(r.1)) }
    }
}
pub proof fn lemma_dec_all(s: Seq<u32>)
    ensures dec_all(enc_all(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let rest = enc_all(s.drop_first());
        lemma_dec1(s[0] as int, rest);
        lemma_vint_len(s[0] as int);
        assert(enc_all(s).skip(vint(s[0] as int).len() as int) =~= rest);
        lemma_dec_all(s.drop_first());
        assert(seq![s[0]] + s.drop_first() =~= s);
    }
}
pub proof fn lemma_enc_all_push(s: Seq<u32>, v: u32)
    ensures enc_all(s.push(v)) == enc_all(s) + vint(v as int)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(v).drop_first() =~= Seq::empty());
        assert(enc_all(s.push(v).drop_first()) =~= Seq::<u8>::empty() && enc_all(s) =~= Seq::<u8>::empty());
        assert(enc_all(s.push(v)) =~= enc_all(s) + vint(v as int));
    } else {
        assert(s.push(v).drop_first() =~= s.drop_first().push(v));
        lemma_enc_all_push(s.drop_first(), v);
        assert(enc_all(s.push(v)) =~= enc_all(s) + vint(v as int));
    }
}
pub proof fn lemma_var_push(o: Seq<u8>, v: u32)
    ensures enc_all(dec_all(o)) == o ==> dec_all(o + vint(v as int)) == dec_all(o).push(v) && enc_all(dec_all(o).push(v)) == o + vint(v as int)
{
    lemma_enc_all_push(dec_all(o), v);
    lemma_dec_all(dec_all(o).push(v));
}
impl View for VarIntVec { type V = Seq<u32>; open spec fn view(&self) -> Seq<u32> { dec_all(self.0@) } }
impl VarIntVec { pub open spec fn wf(&self) -> bool { self.bytes() == enc_all(self@) } }
//@endif
//@if VarIntVecIntoIter
impl<'a> View for VarIntVecIntoIter<'a> { type V = Seq<u32>; open spec fn view(&self) -> Seq<u32> { dec_all(self.inner.0@.skip(self.index as int)) } }
impl<'a> VarIntVecIntoIter<'a> {
    pub open spec fn wf(&self) -> bool { self.index <= self.inner.0@.len() && self.inner.0@.skip(self.index as int) == enc_all(self@) }
}
pub proof fn lemma_var_front(it: VarIntVecIntoIter<'_>)
    requires it.wf()
    ensures
        it@.len() == 0 <==> it.index >= it.inner.0@.len(),
        it@.len() > 0 ==> {
            let b = it.inner.0@.skip(it.index as int);
            let n = vint(it@[0] as int).len();
            &&& dec1(b) == (it@[0] as int, n as int)
            &&& 1 <= n <= 5 && n <= b.len()
            &&& b.skip(n as int) == enc_all(it@.drop_first())
            &&& dec_all(b.skip(n as int)) == it@.drop_first()
            &&& it.inner.0@.skip(it.index + n) == b.skip(n as int)
        },
{
    let b = it.inner.0@.skip(it.index as int);
    if b.len() > 0 && it@.len() == 0 { assert(enc_all(it@).len() == 0); }
    if it@.len() > 0 {
        let x = it@[0] as int;
        let rest = enc_all(it@.drop_first());
        lemma_vint_len(x);
        lemma_dec1(x, rest);
        assert(b.skip(vint(x).len() as int) =~= rest);
        lemma_dec_all(it@.drop_first());
        lemma_skip_skip(it.inner.0@, it.index as int, vint(x).len() as int);
    }
}
//@endif
//@if DifIntVec
impl DifIntVec {
    pub open spec fn bytes(&self) -> Seq<u8> { self.buf.0@ }
    pub open spec fn wf(&self) -> bool {
        &&& ascends(0, self@)
        &&& self.bytes() == enc_from(0, self@)
        &&& self.count == self@.len()
        &&& self.last == last_of(0, self@)
    }
}
impl View for DifIntVec { type V = Seq<u32>; open spec fn view(&self) -> Seq<u32> { dec_from(0, self.buf.0@) } }
impl<'a> View for DifIntVecIntoIter<'a> { type V = Seq<u32>; open spec fn view(&self) -> Seq<u32> { dec_from(self.last as int, self.inner.buf.0@.skip(self.index as int)) } }
impl<'a> DifIntVecIntoIter<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.index <= self.inner.buf.0@.len()
        &&& ascends(self.last as int, self@)
        &&& self.inner.buf.0@.skip(self.index as int) == enc_from(self.last as int, self@)
    }
}
pub proof fn lemma_dif_new(v: DifIntVec) requires v.bytes() == Seq::<u8>::empty(), v.count == 0, v.last == 0 ensures v.wf(), v@ == Seq::<u32>::empty() {
    assert(v@ =~= Seq::<u32>::empty()); assert(enc_from(0, v@) =~= Seq::<u8>::empty());
}
pub broadcast proof fn lemma_dif_count(v: DifIntVec) requires #[trigger] v.wf() ensures v@.len() <= v.bytes().len() { lemma_enc_len(0, v@); }
pub proof fn lemma_dif_push(o: DifIntVec, n: DifIntVec, v: u32)
    requires o.wf(), v >= o.last, n.bytes() == o.bytes() + vint(v - o.last), n.last == v, n.count == o.count + 1,
    ensures n.wf(), n@ == o@.push(v)
{
    lemma_enc_push(0, o@, v);
    lemma_dec_from(0, o@.push(v));
}
pub proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
// the front of a non-empty iterator
pub proof fn lemma_dif_front(it: DifIntVecIntoIter<'_>)
    requires it.wf()
    ensures
        it@.len() == 0 <==> it.index >= it.inner.buf.0@.len(),
        it@.len() > 0 ==> {
            let b = it.inner.buf.0@.skip(it.index as int);
            let n = vint(it@[0] - it.last).len();
            &&& dec1(b) == ((it@[0] - it.last) as int, n as int)
            &&& 1 <= n <= 5 && n <= b.len()
            &&& it@[0] >= it.last
            &&& b.skip(n as int) == enc_from(it@[0] as int, it@.drop_first())
            &&& ascends(it@[0] as int, it@.drop_first())
            &&& dec_from(it@[0] as int, b.skip(n as int)) == it@.drop_first()
            &&& it.inner.buf.0@.skip(it.index + n) == b.skip(n as int)
        },
{
    let b = it.inner.buf.0@.skip(it.index as int);
    lemma_enc_len(it.last as int, it@);
    if it@.len() > 0 {
        let x = it@[0] - it.last;
        let rest = enc_from(it@[0] as int, it@.drop_first());
        lemma_vint_len(x);
        lemma_dec1(x, rest);
        assert(b.skip(vint(x).len() as int) =~= rest);
        lemma_dec_from(it@[0] as int, it@.drop_first());
        lemma_skip_skip(it.inner.buf.0@, it.index as int, vint(x).len() as int);
    }
}
//@endif

// ===================================================================
// HyperLogLog on hash values, by definition
// ===================================================================
// leading zeros among the low n bits of h
pub open spec fn lz_run(h: u64, n: nat) -> nat decreases n {
    if n == 0 || n > 64 { 0 } else if (h >> ((n - 1) as u64)) & 1 == 1 { 0 } else { 1 + lz_run(h, (n - 1) as nat) }
}
// 64-bit hashes: the first p bits select a register, the rank is one plus
// the number of leading zeros of the remaining 64-p bits
pub open spec fn idx64(h: u64, p: u8) -> int { (h >> ((64 - p) as u64)) as int }
pub open spec fn rank64(h: u64, p: u8) -> u32 { (1 + lz_run(h, (64 - p) as nat)) as u32 }
// the classic sketch uses the low 32 bits of the hash
pub open spec fn low32(h: u64) -> u64 { h & 0xffff_ffffu64 }
pub open spec fn idx32(h: u64, p: u8) -> int { (low32(h) >> ((32 - p) as u64)) as int }
pub open spec fn rank32(h: u64, p: u8) -> u32 { (1 + lz_run(low32(h), (32 - p) as nat)) as u32 }

pub proof fn lemma_lz_le(h: u64, n: nat) requires n <= 64 ensures lz_run(h, n) <= n decreases n {
    if n > 0 { lemma_lz_le(h, (n - 1) as nat); }
}
// characterisation: k leading zeros among n bits
pub open spec fn is_lz(h: u64, n: u64, k: u64) -> bool {
    &&& k <= n <= 64
    &&& (k > 0 ==> (h << ((64 - n) as u64)) >> ((64 - k) as u64) == 0)
    &&& (k < n ==> (h >> ((n - 1 - k) as u64)) & 1 == 1)
}
pub proof fn lemma_lz(h: u64, n: u64, k: u64)
    requires is_lz(h, n, k),
    ensures lz_run(h, n as nat) == k
    decreases n
{
    if k == 0 {
    } else {
        let n1 = (n - 1) as u64; let k1 = (k - 1) as u64;
        assert(1 <= k && k <= n && n <= 64 && (h << ((64 - n) as u64)) >> ((64 - k) as u64) == 0 ==> (h >> ((n - 1) as u64)) & 1 == 0) by (bit_vector);
        assert(2 <= k && k <= n && n <= 64 && (h << ((64 - n) as u64)) >> ((64 - k) as u64) == 0 ==> (h << ((65 - n) as u64)) >> ((65 - k) as u64) == 0) by (bit_vector);
        assert(n1 - 1 - k1 == n - 1 - k || k1 >= n1);
        lemma_lz(h, n1, k1);
    }
}
pub broadcast proof fn lemma_lz_u64(x: u64) ensures #[trigger] u64_leading_zeros(x) == lz_run(x, 64) {
    axiom_u64_leading_zeros(x);
    let z = u64_leading_zeros(x) as u64;
    if z < 64 { assert((x >> sub(63, z)) & 1u64 != 0 ==> (x >> sub(63, z)) & 1 == 1) by (bit_vector); }
    assert(x << 0 == x) by (bit_vector);
    lemma_lz(x, 64, z);
}
pub broadcast proof fn lemma_lz_u32(x: u32) ensures #[trigger] u32_leading_zeros(x) == lz_run(x as u64, 32) {
    axiom_u32_leading_zeros(x);
    let z = u32_leading_zeros(x) as u32;
    let y = x as u64; let w = z as u64;
    if z < 32 { assert(z < 32 && y == x as u64 && w == z as u64 && (x >> sub(31, z)) & 1u32 != 0 ==> (y >> sub(31, w)) & 1 == 1) by (bit_vector); }
    assert(z <= 32 && z > 0 && y == x as u64 && w == z as u64 && x >> sub(32, z) == 0 ==> (y << 32) >> sub(64, w) == 0) by (bit_vector);
    lemma_lz(y, 32, w);
}
// the low n bits of h, moved up by p with a one just below
pub proof fn lemma_lz_shift(h: u64, p: u8, x: u64, n: nat)
    requires 1 <= p <= 63, n <= 64 - p, x == (h << p) | (1u64 << ((p - 1) as u8))
    ensures lz_run(x, (n + p) as nat) == lz_run(h, n)
    decreases n
{
    if n == 0 {
        assert(1 <= p <= 63 ==> (((h << p) | (1u64 << ((p - 1) as u8))) >> sub(p as u64, 1)) & 1 == 1) by (bit_vector);
    } else {
        let k = n as u64;
        assert(1 <= p <= 63 && 1 <= k && k <= 64 - p ==> (((h << p) | (1u64 << ((p - 1) as u8))) >> sub(add(k, p as u64), 1)) & 1 == (h >> sub(k, 1)) & 1) by (bit_vector);
        lemma_lz_shift(h, p, x, (n - 1) as nat);
    }
}
pub proof fn lemma_lz_ext(a: u64, b: u64, n: nat, m: u64)
    requires n <= m <= 64, a << ((64 - m) as u64) == b << ((64 - m) as u64)
    ensures lz_run(a, n) == lz_run(b, n)
    decreases n
{
    if n > 0 {
        let k = n as u64;
        assert(1 <= k && k <= m && m <= 64 && a << ((64 - m) as u64) == b << ((64 - m) as u64) ==> (a >> sub(k, 1)) & 1 == (b >> sub(k, 1)) & 1) by (bit_vector);
        lemma_lz_ext(a, b, (n - 1) as nat, m);
    }
}
pub proof fn lemma_lz_conv(h: u64, n: u64)
    requires n <= 64
    ensures is_lz(h, n, lz_run(h, n as nat) as u64), lz_run(h, n as nat) <= n
    decreases n
{
    lemma_lz_le(h, n as nat);
    if n > 0 {
        let n1 = (n - 1) as u64;
        if (h >> n1) & 1 == 1 {
        } else {
            lemma_lz_conv(h, n1);
            let k1 = lz_run(h, n1 as nat) as u64;
            let k = (k1 + 1) as u64;
            assert((h >> n1) & 1 != 1 ==> (h >> n1) & 1 == 0) by (bit_vector);
            assert(1 <= n && n <= 64 && n1 == n - 1 && (h >> n1) & 1 == 0 ==> (h << ((64 - n) as u64)) >> 63 == 0) by (bit_vector);
            if k1 > 0 {
                assert(1 <= n && n <= 64 && n1 == n - 1 && 1 <= k1 && k1 <= n1 && k == k1 + 1 && (h >> n1) & 1 == 0 && (h << ((64 - n1) as u64)) >> ((64 - k1) as u64) == 0 ==> (h << ((64 - n) as u64)) >> ((64 - k) as u64) == 0) by (bit_vector);
            }
        }
    }
}
// a range of bits, shifted up and down or shifted down and masked
pub proof fn lemma_extract64(num: u64, hi: u64, lo: u64)
    requires lo < hi <= 64, hi - lo < 64
    ensures
        1u64 << ((hi - lo) as u64) >= 1,
        (num << ((64 - hi) as u64)) >> ((64 - (hi - lo)) as u64) == (num >> lo) & sub(1u64 << ((hi - lo) as u64), 1),
        (num << ((64 - hi) as u64)) >> ((64 - (hi - lo)) as u64) == (num >> lo) & (u64::MAX >> ((64 - (hi - lo)) as u64)),
{
    let d = (hi - lo) as u64;
    let e = (64 - d) as u64;
    let f = (64 - hi) as u64;
    let y = num << f;
    assert(f < 64 ==> (num << f) >> f == num & (u64::MAX >> f)) by (bit_vector);
    assert(f < 64 && lo < 64 && f + lo < 64 && e == add(f, lo) ==> y >> e == (y >> f) >> lo) by (bit_vector);
    let m = u64::MAX >> f;
    assert((num & m) >> lo == (num >> lo) & (m >> lo)) by (bit_vector);
    assert(f <= e && e < 64 && lo == e - f && m == u64::MAX >> f ==> m >> lo == u64::MAX >> e) by (bit_vector);
    assert(1 <= e && e < 64 && d == 64 - e ==> 1u64 << d >= 1 && sub(1u64 << d, 1) == u64::MAX >> e) by (bit_vector);
}
pub proof fn lemma_extract32(num: u32, hi: u32, lo: u32)
    requires lo < hi <= 32, hi - lo < 32
    ensures
        1u32 << ((hi - lo) as u32) >= 1,
        (num << ((32 - hi) as u32)) >> ((32 - (hi - lo)) as u32) == (num >> lo) & sub(1u32 << ((hi - lo) as u32), 1),
        (num << ((32 - hi) as u32)) >> ((32 - (hi - lo)) as u32) == (num >> lo) & (u32::MAX >> ((32 - (hi - lo)) as u32)),
{
    let d = (hi - lo) as u32;
    let e = (32 - d) as u32;
    let f = (32 - hi) as u32;
    let y = num << f;
    assert(f < 32 ==> (num << f) >> f == num & (u32::MAX >> f)) by (bit_vector);
    assert(f < 32 && lo < 32 && f + lo < 32 && e == add(f, lo) ==> y >> e == (y >> f) >> lo) by (bit_vector);
    let m = u32::MAX >> f;
    assert((num & m) >> lo == (num >> lo) & (m >> lo)) by (bit_vector);
    assert(f <= e && e < 32 && lo == e - f && m == u32::MAX >> f ==> m >> lo == u32::MAX >> e) by (bit_vector);
    assert(1 <= e && e < 32 && d == 32 - e ==> 1u32 << d >= 1 && sub(1u32 << d, 1) == u32::MAX >> e) by (bit_vector);
}
// other ways to the same rank: without the extra one, or with the index bits masked out
pub proof fn lemma_lz_forms64(h: u64, p: u8)
    requires 1 <= p <= 63
    ensures
        u64_leading_zeros(h << p) >= 64 - p ==> lz_run(h, (64 - p) as nat) == 64 - p,
        u64_leading_zeros(h << p) < 64 - p ==> lz_run(h, (64 - p) as nat) == u64_leading_zeros(h << p),
        1u64 << ((64 - p) as u8) >= 1, u64_leading_zeros(h & sub(1u64 << ((64 - p) as u8), 1)) == lz_run(h, (64 - p) as nat) + p,
        u64_leading_zeros(h & (u64::MAX >> p)) == lz_run(h, (64 - p) as nat) + p,
{
    let n = (64 - p) as u64;
    lemma_lz_conv(h, n);
    let k = lz_run(h, n as nat) as u64;
    let x = h << p;
    let q = p as u64;
    lemma_lz_u64(x);
    lemma_lz_conv(x, 64);
    if k < n {
        assert(x << 0 == x) by (bit_vector);
        assert(1 <= q && q <= 63 && k < n && n == 64 - q && (h >> ((n - 1 - k) as u64)) & 1 == 1 ==> ((h << q) >> ((63 - k) as u64)) & 1 == 1) by (bit_vector);
        lemma_lz(x, 64, k);
    } else {
        assert(1 <= q && q <= 63 && n == 64 - q && (h << ((64 - n) as u64)) >> ((64 - n) as u64) == 0 ==> h << q == 0) by (bit_vector);
        assert(0u64 >> 0u64 == 0) by (bit_vector);
        assert((0u64 << 0u64) >> 0u64 == 0) by (bit_vector);
        lemma_lz(x, 64, 64);
    }
    let y = h & sub(1u64 << ((64 - p) as u8), 1);
    lemma_lz_u64(y);
    let w = (k + p) as u64;
    assert(1 <= q && q <= 63 && n == 64 - q ==> 1u64 << n >= 1 && u64::MAX >> q == sub(1u64 << n, 1)) by (bit_vector);
    assert(1 <= q && q <= 63 && n == 64 - q && k <= n && w == k + q && (k > 0 ==> (h << ((64 - n) as u64)) >> ((64 - k) as u64) == 0) ==> ((h & sub(1u64 << n, 1)) << 0) >> ((64 - w) as u64) == 0) by (bit_vector);
    if k < n {
        assert(1 <= q && q <= 63 && n == 64 - q && k < n && w == k + q && (h >> ((n - 1 - k) as u64)) & 1 == 1 ==> ((h & sub(1u64 << n, 1)) >> ((63 - w) as u64)) & 1 == 1) by (bit_vector);
    }
    lemma_lz(y, 64, w);
}
pub proof fn lemma_lz_forms32(h: u64, p: u8)
    requires 1 <= p <= 31
    ensures
        u32_leading_zeros((h as u32) << p) >= 32 - p ==> lz_run(low32(h), (32 - p) as nat) == 32 - p,
        u32_leading_zeros((h as u32) << p) < 32 - p ==> lz_run(low32(h), (32 - p) as nat) == u32_leading_zeros((h as u32) << p),
        1u32 << ((32 - p) as u8) >= 1, u32_leading_zeros((h as u32) & sub(1u32 << ((32 - p) as u8), 1)) == lz_run(low32(h), (32 - p) as nat) + p,
        u32_leading_zeros((h as u32) & (u32::MAX >> p)) == lz_run(low32(h), (32 - p) as nat) + p,
{
    let l = low32(h);
    let n = (32 - p) as u64;
    lemma_lz_conv(l, n);
    let k = lz_run(l, n as nat) as u64;
    let x = (h as u32) << p;
    let z = x as u64;
    let q = p as u64;
    let pp = p as u32;
    lemma_lz_u32(x);
    lemma_lz_conv(z, 32);
    assert(1 <= q && q <= 31 && pp == q && l == h & 0xffff_ffffu64 && z == ((h as u32) << pp) as u64 ==> z << 32 == l << ((32 + q) as u64)) by (bit_vector);
    if k < n {
        assert(1 <= q && q <= 31 && pp == q && k < n && n == 32 - q && l == h & 0xffff_ffffu64 && z == ((h as u32) << pp) as u64 && (l >> ((n - 1 - k) as u64)) & 1 == 1 ==> (z >> ((31 - k) as u64)) & 1 == 1) by (bit_vector);
        lemma_lz(z, 32, k);
    } else {
        assert(1 <= q && q <= 31 && n == 32 - q && (l << ((64 - n) as u64)) >> ((64 - n) as u64) == 0 ==> l << ((32 + q) as u64) == 0) by (bit_vector);
        assert((0u64) >> 32u64 == 0) by (bit_vector);
        lemma_lz(z, 32, 32);
    }
    let y = (h as u32) & sub(1u32 << ((32 - p) as u8), 1);
    let v = y as u64;
    lemma_lz_u32(y);
    let w = (k + p) as u64;
    let m = n as u32;
    assert(1 <= pp && pp <= 31 && m == 32 - pp ==> 1u32 << m >= 1 && u32::MAX >> pp == sub(1u32 << m, 1)) by (bit_vector);
    assert(1 <= q && q <= 31 && n == 32 - q && m == n && l == h & 0xffff_ffffu64 && v == ((h as u32) & sub(1u32 << m, 1)) as u64 && k <= n && w == k + q && (k > 0 ==> (l << ((64 - n) as u64)) >> ((64 - k) as u64) == 0) ==> (v << 32) >> ((64 - w) as u64) == 0) by (bit_vector);
    if k < n {
        assert(1 <= q && q <= 31 && n == 32 - q && m == n && l == h & 0xffff_ffffu64 && v == ((h as u32) & sub(1u32 << m, 1)) as u64 && k < n && w == k + q && (l >> ((n - 1 - k) as u64)) & 1 == 1 ==> (v >> ((31 - w) as u64)) & 1 == 1) by (bit_vector);
    }
    lemma_lz(v, 32, w);
}
pub proof fn lemma_hash64(h: u64, p: u8)
    requires 4 <= p <= 18
    ensures
        1 + u64_leading_zeros((h << p) | (1u64 << ((p - 1) as u8))) == rank64(h, p),
        1 <= rank64(h, p) <= 65 - p, 0 <= idx64(h, p) < (1usize << p),
{
    let x = (h << p) | (1u64 << ((p - 1) as u8));
    lemma_lz_u64(x);
    lemma_lz_shift(h, p, x, (64 - p) as nat);
    lemma_lz_le(h, (64 - p) as nat);
    assert(4 <= p && p <= 18 ==> (h >> ((64 - p) as u64)) < (1u64 << p) && (1u64 << p) == (1usize << p)) by (bit_vector);
}
pub proof fn lemma_hash32(h: u64, p: u8)
    requires 4 <= p <= 16
    ensures
        1 + u32_leading_zeros(((h as u32) << p) | (1u32 << ((p - 1) as u8))) == rank32(h, p),
        1 <= rank32(h, p) <= 33 - p, idx32(h, p) == (h as u32) >> ((32 - p) as u8), 0 <= idx32(h, p) < (1usize << p),
{
    let x = ((h as u32) << p) | (1u32 << ((p - 1) as u8));
    let l = low32(h);
    let y = (l << p) | (1u64 << ((p - 1) as u8));
    lemma_lz_u32(x);
    lemma_lz_shift(l, p, y, (32 - p) as nat);
    assert(4 <= p && p <= 16 && x == ((h as u32) << p) | (1u32 << ((p - 1) as u8)) && l == h & 0xffff_ffffu64 && y == (l << p) | (1u64 << ((p - 1) as u8)) ==> (x as u64) << 32 == y << 32) by (bit_vector);
    lemma_lz_ext(x as u64, y, 32, 32);
    lemma_lz_le(l, (32 - p) as nat);
    assert(4 <= p && p <= 16 && l == h & 0xffff_ffffu64 ==> (l >> ((32 - p) as u64)) == (h as u32) >> ((32 - p) as u8) && (l >> ((32 - p) as u64)) < (1u64 << p) && (1u64 << p) == (1usize << p)) by (bit_vector);
}
pub proof fn lemma_pow2(p: u8)
    requires p <= 18
    ensures 1usize << p <= 0x4_0000, 1usize << p >= 1, p >= 4 ==> 1usize << p >= 16, p <= 16 ==> 1usize << p <= 0x1_0000,
        1usize << p == 1u64 << p
{ assert(p <= 18 ==> 1usize << p <= 0x4_0000 && 1usize << p >= 1 && (p >= 4 ==> 1usize << p >= 16) && (p <= 16 ==> 1usize << p <= 0x1_0000) && 1usize << p == 1u64 << p) by (bit_vector); }

// ===================================================================
// What a register array says about a set of hash values: register i holds
// the largest rank among the hash values that select it, zero for none.
// ===================================================================
pub open spec fn idx_of(plus: bool, h: u64, p: u8) -> int { if plus { idx64(h, p) } else { idx32(h, p) } }
pub open spec fn rank_of(plus: bool, h: u64, p: u8) -> u32 { if plus { rank64(h, p) } else { rank32(h, p) } }
pub open spec fn witness(plus: bool, hs: Set<u64>, p: u8, i: int, v: u32, h: u64) -> bool {
    hs.contains(h) && idx_of(plus, h, p) == i && rank_of(plus, h, p) == v
}
pub open spec fn regs_hold(plus: bool, regs: Seq<u32>, hs: Set<u64>, p: u8) -> bool {
    &&& regs.len() == 1usize << p
    &&& forall|h: u64| #[trigger] hs.contains(h) ==> 0 <= idx_of(plus, h, p) < regs.len() && rank_of(plus, h, p) <= regs[idx_of(plus, h, p)]
    &&& forall|i: int| 0 <= i < regs.len() && #[trigger] regs[i] != 0 ==> exists|h: u64| witness(plus, hs, p, i, regs[i], h)
}
pub open spec fn raise(regs: Seq<u32>, i: int, v: u32) -> Seq<u32> { regs.update(i, if v > regs[i] { v } else { regs[i] }) }
pub open spec fn max_regs(a: Seq<u32>, b: Seq<u32>) -> Seq<u32> { Seq::new(a.len(), |i: int| if a[i] >= b[i] { a[i] } else { b[i] }) }

pub proof fn lemma_hold_empty(plus: bool, regs: Seq<u32>, p: u8)
    requires regs.len() == 1usize << p, forall|i: int| 0 <= i < regs.len() ==> regs[i] == 0
    ensures regs_hold(plus, regs, Set::empty(), p)
{ }
pub proof fn lemma_hold_insert(plus: bool, regs: Seq<u32>, hs: Set<u64>, p: u8, h: u64)
    requires regs_hold(plus, regs, hs, p), 0 <= idx_of(plus, h, p) < regs.len()
    ensures regs_hold(plus, raise(regs, idx_of(plus, h, p), rank_of(plus, h, p)), hs.insert(h), p)
{
    let (i0, v0) = (idx_of(plus, h, p), rank_of(plus, h, p));
    let n = raise(regs, i0, v0);
    let hs2 = hs.insert(h);
    assert forall|i: int| 0 <= i < n.len() && #[trigger] n[i] != 0 implies exists|x: u64| witness(plus, hs2, p, i, n[i], x) by {
        if i == i0 && v0 > regs[i] {
            assert(witness(plus, hs2, p, i, n[i], h));
        } else {
            let x = choose|x: u64| witness(plus, hs, p, i, regs[i], x);
            assert(witness(plus, hs, p, i, regs[i], x));
            assert(witness(plus, hs2, p, i, n[i], x));
        }
    }
}
pub proof fn lemma_hold_union(plus: bool, a: Seq<u32>, b: Seq<u32>, ha: Set<u64>, hb: Set<u64>, p: u8)
    requires regs_hold(plus, a, ha, p), regs_hold(plus, b, hb, p)
    ensures regs_hold(plus, max_regs(a, b), ha.union(hb), p)
{
    let n = max_regs(a, b);
    let hs = ha.union(hb);
    assert forall|i: int| 0 <= i < n.len() && #[trigger] n[i] != 0 implies exists|x: u64| witness(plus, hs, p, i, n[i], x) by {
        if a[i] >= b[i] {
            let x = choose|x: u64| witness(plus, ha, p, i, a[i], x);
            assert(witness(plus, ha, p, i, a[i], x));
            assert(witness(plus, hs, p, i, n[i], x));
        } else {
            let x = choose|x: u64| witness(plus, hb, p, i, b[i], x);
            assert(witness(plus, hb, p, i, b[i], x));
            assert(witness(plus, hs, p, i, n[i], x));
        }
    }
}
// the registers are a function of the set: order and repetition do not matter
pub proof fn lemma_hold_unique(plus: bool, a: Seq<u32>, b: Seq<u32>, hs: Set<u64>, p: u8)
    requires regs_hold(plus, a, hs, p), regs_hold(plus, b, hs, p)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by {
        if a[i] != 0 { let x = choose|x: u64| witness(plus, hs, p, i, a[i], x); assert(witness(plus, hs, p, i, a[i], x)); }
        if b[i] != 0 { let x = choose|x: u64| witness(plus, hs, p, i, b[i], x); assert(witness(plus, hs, p, i, b[i], x)); }
    }
    assert(a =~= b);
}
pub proof fn lemma_raise_len(regs: Seq<u32>, i: int, v: u32) ensures raise(regs, i, v).len() == regs.len() { }

// ===================================================================
// the classic sketch
// ===================================================================
impl<H, B> HyperLogLogPF<H, B> where H: Hash + ?Sized, B: BuildHasher {
    pub open spec fn wf(&self) -> bool {
        &&& 4 <= self.precision <= 16
        &&& self.count == 1usize << self.precision
        &&& self.registers.wf()
        &&& self.registers.count == self.count
        &&& forall|i: int| 0 <= i < self.count ==> #[trigger] self.registers.regs()[i] <= 33 - self.precision
    }
    // the sketch stands for the set hs of hash values
    pub open spec fn holds(&self, hs: Set<u64>) -> bool {
        self.wf() && regs_hold(false, self.registers.regs(), hs, self.precision)
    }
    // same configuration: everything but the registers
    pub open spec fn same(&self, o: &Self) -> bool {
        self.builder == o.builder && self.precision == o.precision && self.count == o.count
    }
}
pub proof fn lemma_pf_insert<H: Hash + ?Sized, B: BuildHasher>(o: &HyperLogLogPF<H, B>, n: &HyperLogLogPF<H, B>, h: u64)
    requires o.wf(), n.same(o), n.registers.wf(), n.registers.count == o.registers.count,
        n.registers.regs() == raise(o.registers.regs(), idx32(h, o.precision), rank32(h, o.precision)),
    ensures n.wf(), forall|hs: Set<u64>| #[trigger] o.holds(hs) ==> n.holds(hs.insert(h)),
{
    let p = o.precision;
    lemma_hash32(h, p);
    assert forall|hs: Set<u64>| #[trigger] o.holds(hs) implies n.holds(hs.insert(h)) by {
        lemma_hold_insert(false, o.registers.regs(), hs, p, h);
    }
}
pub proof fn lemma_pf_merge<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(o: &HyperLogLogPF<H, B>, x: &HyperLogLogPF<S, T>, n: &HyperLogLogPF<H, B>)
    requires o.wf(), x.wf(), n.wf(), n.same(o), o.precision == x.precision,
        n.registers.regs() == max_regs(o.registers.regs(), x.registers.regs()),
    ensures forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) ==> n.holds(a.union(b)),
{
    assert forall|a: Set<u64>, b: Set<u64>| #[trigger] o.holds(a) && #[trigger] x.holds(b) implies n.holds(a.union(b)) by {
        lemma_hold_union(false, o.registers.regs(), x.registers.regs(), a, b, o.precision);
    }
}

// ===================================================================
// estimates, as formulas over the f64 operations
// ===================================================================
pub open spec fn k_one() -> F64 { f_lit(0x3ff0000000000000) }          // 1.0
pub open spec fn two_to_minus(v: u32) -> F64 { f_div(k_one(), f_int((1u64 << v) as int)) }
// largest register value plus one that the sum of powers has to handle
//@if RegistersPlus
pub open spec fn reg_cap() -> int { 64 }
//@endif
//@if !RegistersPlus
pub open spec fn reg_cap() -> int { 32 }
//@endif
pub open spec fn alpha_spec(m: int) -> F64 {
    if m == 16 { f_lit(0x3fe589374bc6a7f0) }                             // 0.673
    else if m == 32 { f_lit(0x3fe64dd2f1a9fbe7) }                        // 0.697
    else if m == 64 { f_lit(0x3fe6b020c49ba5e3) }                        // 0.709
    else { f_div(f_lit(0x3fe714e3bcd35a86), f_add(k_one(), f_div(f_lit(0x3ff14395810624dd), f_int(m)))) } // 0.7213 / (1 + 1.079 / m)
}
// alpha m^2 / sum of 2^-register
// the sum of 2^-r over the registers, left to right
pub open spec fn raw_acc(regs: Seq<u32>) -> F64 decreases regs.len() {
    if regs.len() == 0 { f_lit(0) } else { f_add(raw_acc(regs.drop_last()), two_to_minus(regs.last())) }
}
// TRUSTED: the sum of no f64 is one of the zeros
#[verifier::external_body]
pub proof fn axiom_f_zero() ensures f_zero() == f_lit(0) || f_zero() == f_lit(0x8000_0000_0000_0000) { }
pub proof fn lemma_shl(v: u32) requires v < 64 ensures 1 <= (1u64 << v) <= 0x8000_0000_0000_0000, v <= 53 ==> (1u64 << v) <= big()
{ assert(v < 64 ==> 1 <= (1u64 << v) && (1u64 << v) <= 0x8000_0000_0000_0000u64 && (v <= 53 ==> (1u64 << v) <= 0x20_0000_0000_0000u64)) by (bit_vector); }
// 2^-v lies in (0, 1]
pub proof fn lemma_two_minus(v: u32)
    requires v < 64
    ensures f_lt(f_int(0), two_to_minus(v)), f_in(two_to_minus(v), 0, 1), v == 0 ==> two_to_minus(v) == f_int(1)
{
    let d = (1u64 << v) as int;
    lemma_shl(v); axiom_lit_int(); axiom_int(0, 1); axiom_int(1, 1); axiom_int(0, 0);
    axiom_int_mono(1, d); axiom_int_mono(d, 0x1_0000_0000_0000_0000);
    axiom_trans(f_int(0), f_int(1), f_int(d));
    axiom_div_pos(f_int(1), f_int(d), 1);
    axiom_div_in(f_int(1), f_int(d), 1, 1);
    if v == 0 { assert(1u64 << 0u32 == 1) by (bit_vector); axiom_div_self(1); }
}
pub proof fn lemma_zero(v: u32) requires v < 64 ensures f_add(f_lit(0), two_to_minus(v)) == f_add(f_zero(), two_to_minus(v)), f_add(f_zero(), two_to_minus(v)) == two_to_minus(v)
{ lemma_two_minus(v); axiom_f_zero(); axiom_add_zero(two_to_minus(v)); }
pub proof fn lemma_raw_loop(regs: Seq<u32>)
    requires forall|k: int| 0 <= k < regs.len() ==> #[trigger] regs[k] < reg_cap()
    ensures regs.len() > 0 ==> raw_acc(regs) == f_sum(regs.map_values(|v: u32| two_to_minus(v)))
    decreases regs.len()
{
    if regs.len() > 0 {
        let m = regs.map_values(|v: u32| two_to_minus(v));
        let d = regs.drop_last();
        assert(d.map_values(|v: u32| two_to_minus(v)) =~= m.drop_last());
        assert(m.last() == two_to_minus(regs.last()));
        if regs.len() == 1 { lemma_zero(regs[0]); assert(d.len() == 0 && m.drop_last().len() == 0); assert(raw_acc(d) == f_lit(0) && f_sum(m.drop_last()) == f_zero()); assert(raw_acc(regs) == f_add(f_lit(0), two_to_minus(regs[0]))); assert(f_sum(m) == f_add(f_zero(), m.last())); }
        else { lemma_raw_loop(d); }
    }
}
pub open spec fn raw_spec(regs: Seq<u32>, m: int) -> F64 {
    f_div(f_mul(alpha_spec(m), f_int(m * m)), f_sum(regs.map_values(|v: u32| two_to_minus(v))))
}
// m ln(m / zeros)
pub open spec fn linear_spec(m: int, zeros: int) -> F64 { f_mul(f_int(m), ln_of(f_div(f_int(m), f_int(zeros)))) }
pub open spec fn k_two32() -> F64 { f_int(0x1_0000_0000) }
pub open spec fn classic_spec(regs: Seq<u32>, m: int) -> F64 {
    let raw = raw_spec(regs, m);
    let zeros = count_zeros(regs);
    if f_le(raw, f_mul(f_lit(0x4004000000000000), f_int(m))) && zeros != 0 { linear_spec(m, zeros as int) }   // raw <= 2.5 m
    else if f_gt(raw, f_div(k_two32(), f_lit(0x403e000000000000))) {                                       // raw > 2^32 / 30
        f_mul(f_mul(f_lit(0xbff0000000000000), k_two32()), ln_of(f_sub(k_one(), f_div(f_min(raw, k_two32()), k_two32()))))
    } else { raw }
}
// the estimate is a function of the set of hash values alone; count leaves
// the sketch as it is, so this also covers estimates taken in between
pub proof fn theorem_pf_estimate<H: Hash + ?Sized, B: BuildHasher, S: Hash + ?Sized, T: BuildHasher>(a: &HyperLogLogPF<H, B>, b: &HyperLogLogPF<S, T>, hs: Set<u64>)
    requires a.holds(hs), b.holds(hs), a.precision == b.precision
    ensures classic_spec(a.registers.regs(), a.count as int) == classic_spec(b.registers.regs(), b.count as int)
{ lemma_hold_unique(false, a.registers.regs(), b.registers.regs(), hs, a.precision); }
// a copy: the same contents field by field.  That a clone and a sketch read
// back from its serialization are copies is proved of the derived code (derive/).
pub open spec fn pf_copy<H: Hash + ?Sized, B: BuildHasher>(a: &HyperLogLogPF<H, B>, b: &HyperLogLogPF<H, B>) -> bool {
    &&& a.builder == b.builder && a.precision == b.precision && a.count == b.count
    &&& a.registers.buf@ == b.registers.buf@ && a.registers.count == b.registers.count && a.registers.zeros == b.registers.zeros
}
pub proof fn theorem_pf_copy<H: Hash + ?Sized, B: BuildHasher>(a: &HyperLogLogPF<H, B>, b: &HyperLogLogPF<H, B>)
    requires pf_copy(a, b)
    ensures a.same(b), a.registers.regs() == b.registers.regs(), a.wf() == b.wf(), forall|hs: Set<u64>| #[trigger] a.holds(hs) == b.holds(hs),
        classic_spec(a.registers.regs(), a.count as int) == classic_spec(b.registers.regs(), b.count as int)
{ assert(a.registers.regs() =~= b.registers.regs()); }
// merging with itself or with an empty sketch, inserting again: the same set
pub proof fn theorem_same_set(hs: Set<u64>, h: u64)
    ensures hs.union(hs) == hs, hs.union(Set::empty()) == hs, Set::<u64>::empty().union(hs) == hs, hs.contains(h) ==> hs.insert(h) == hs,
        forall|x: Set<u64>| #[trigger] x.union(hs) == hs.union(x), forall|x: u64| #[trigger] hs.insert(h).insert(x) == hs.insert(x).insert(h),
        forall|x: Set<u64>| #[trigger] hs.insert(h).union(x) == hs.union(x).insert(h),
{
    assert(hs.union(hs) =~= hs); assert(hs.union(Set::empty()) =~= hs); assert(Set::<u64>::empty().union(hs) =~= hs);
    assert(hs.contains(h) ==> hs.insert(h) =~= hs);
    assert forall|x: Set<u64>| #[trigger] x.union(hs) == hs.union(x) by { assert(x.union(hs) =~= hs.union(x)); }
    assert forall|x: u64| #[trigger] hs.insert(h).insert(x) == hs.insert(x).insert(h) by { assert(hs.insert(h).insert(x) =~= hs.insert(x).insert(h)); }
    assert forall|x: Set<u64>| #[trigger] hs.insert(h).union(x) == hs.union(x).insert(h) by { assert(hs.insert(h).union(x) =~= hs.union(x).insert(h)); }
}
// other ways to write down the large range correction
pub proof fn lemma_count_forms(regs: Seq<u32>, m: int)
    ensures
        f_mul(f_lit(0xbff0000000000000), k_two32()) == f_neg(k_two32()),
        f_div(k_two32(), f_lit(0x403e000000000000)) == f_lit(0x41a1111111111111), k_two32() == f_lit(0x41f0_0000_0000_0000),
        forall|x: F64| #[trigger] f_mul(f_neg(k_two32()), x) == f_neg(f_mul(k_two32(), x)), forall|x: F64| f_mul(k_two32(), #[trigger] f_neg(x)) == f_neg(f_mul(k_two32(), x)),
        forall|x: F64| #[trigger] f_mul(f_lit(0xbff0000000000000), x) == f_neg(x), forall|x: F64, y: F64| #[trigger] f_mul(x, y) == f_mul(y, x),
{
    axiom_neg_one(k_two32());
    axiom_two32();
    assert forall|x: F64| #[trigger] f_mul(f_neg(k_two32()), x) == f_neg(f_mul(k_two32(), x)) by { axiom_neg_mul(k_two32(), x); }
    assert forall|x: F64| f_mul(k_two32(), #[trigger] f_neg(x)) == f_neg(f_mul(k_two32(), x)) by { axiom_neg_mul(k_two32(), x); }
    assert forall|x: F64| #[trigger] f_mul(f_lit(0xbff0000000000000), x) == f_neg(x) by { axiom_neg_one(x); }
    assert forall|x: F64, y: F64| #[trigger] f_mul(x, y) == f_mul(y, x) by { axiom_comm(x, y); }
}
pub proof fn lemma_two32() ensures (1u64 << 32) == 0x1_0000_0000u64 { assert((1u64 << 32) == 0x1_0000_0000u64) by (bit_vector); }
pub proof fn lemma_pow2_all(p: u8) ensures p <= 18 ==> 1usize << p <= 0x4_0000 && 1usize << p >= 1, p <= 16 ==> 1usize << p <= 0x1_0000 {
    if p <= 18 { lemma_pow2(p); }
}

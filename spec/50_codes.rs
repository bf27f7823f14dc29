// ===================================================================
// sparse codes of HyperLogLog++ (precision 25)
// ===================================================================
//@if HyperLogLogPlus
// the first 25 bits of the hash; if the bits between the sketch precision
// and 25 are all zero the rank beyond bit 25 is kept too, with a flag
pub open spec fn mid(h: u64, p: u8) -> u64 { (h << (p as u64)) >> ((39 + p) as u64) }
pub open spec fn enc(h: u64, p: u8) -> u32 {
    if mid(h, p) == 0 { (((h >> 39) as u32) << 7) | (rank64(h, 25) << 1) | 1 } else { ((h >> 39) << 1) as u32 }
}
pub open spec fn dec_idx(c: u32, p: u8) -> int {
    if c & 1 == 1 { (c >> ((32 - p) as u32)) as int } else { ((c << 6) >> ((32 - p) as u32)) as int }
}
pub open spec fn dec_rank(c: u32, p: u8) -> u32 {
    if c & 1 == 1 { (((c >> 1) & 63) + (25 - p)) as u32 } else { (1 + lz_run((c << ((6 + p) as u32)) as u64, 32)) as u32 }
}
pub open spec fn code_ok(c: u32, p: u8) -> bool { dec_rank(c, p) <= 65 - p }

pub proof fn lemma_dec_bounds(c: u32, p: u8)
    requires 4 <= p <= 18
    ensures 0 <= dec_idx(c, p) < (1usize << p), c & 1 != 1 ==> 1 <= dec_rank(c, p) <= 33, ((c >> 1) & 63) <= 63,
{
    assert(4 <= p && p <= 18 ==> (c >> ((32 - p) as u32)) < (1usize << p) && ((c << 6) >> ((32 - p) as u32)) < (1usize << p)) by (bit_vector);
    assert(((c >> 1) & 63) <= 63) by (bit_vector);
    lemma_lz_le((c << ((6 + p) as u32)) as u64, 32);
}
// a sparse code decodes to the index and the rank of the hash it came from
pub proof fn lemma_code(h: u64, p: u8)
    requires 4 <= p <= 18
    ensures dec_idx(enc(h, p), p) == idx64(h, p), dec_rank(enc(h, p), p) == rank64(h, p), code_ok(enc(h, p), p),
{
    let c = enc(h, p);
    lemma_hash64(h, p);
    if mid(h, p) == 0 {
        lemma_lz_conv(h, 39);
        let z = lz_run(h, 39) as u64;
        let r = (1 + z) as u32;
        assert(rank64(h, 25) == r);
        assert(r <= 40 ==> (((((h >> 39) as u32) << 7) | (r << 1) | 1) & 1) == 1) by (bit_vector);
        assert(r <= 40 ==> (((((((h >> 39) as u32) << 7) | (r << 1) | 1)) >> 1) & 63) == r) by (bit_vector);
        assert(r <= 40 && 4 <= p && p <= 18 ==> ((((((h >> 39) as u32) << 7) | (r << 1) | 1)) >> ((32 - p) as u32)) == (h >> ((64 - p) as u64))) by (bit_vector);
        let k = (z + (25 - p)) as u64;
        assert(4 <= p && p <= 18 && z <= 39 && k == z + (25 - p) && (h << (p as u64)) >> ((39 + p) as u64) == 0
            && (z > 0 ==> (h << 25) >> ((64 - z) as u64) == 0)
            ==> (h << ((64 - (64 - p)) as u64)) >> ((64 - k) as u64) == 0) by (bit_vector);
        assert(4 <= p && p <= 18 && z < 39 && k == z + (25 - p) && (h >> ((38 - z) as u64)) & 1 == 1 ==> (h >> ((63 - p - k) as u64)) & 1 == 1) by (bit_vector);
        lemma_lz(h, (64 - p) as u64, k);
    } else {
        assert(((((h >> 39) << 1) as u32) & 1) != 1) by (bit_vector);
        assert(4 <= p && p <= 18 ==> (((((h >> 39) << 1) as u32) << 6) >> ((32 - p) as u32)) == (h >> ((64 - p) as u64))) by (bit_vector);
        let w = c << ((6 + p) as u32);
        let y = w as u64;
        lemma_lz_conv(y, 32);
        let z = lz_run(y, 32) as u64;
        assert(4 <= p && p <= 18 && c == ((h >> 39) << 1) as u32 && y == (c << ((6 + p) as u32)) as u64 && (h << (p as u64)) >> ((39 + p) as u64) != 0 && z <= 32
            && (z > 0 ==> (y << 32) >> ((64 - z) as u64) == 0) ==> z < 25 - p) by (bit_vector);
        assert(4 <= p && p <= 18 && z < 25 - p && c == ((h >> 39) << 1) as u32 && y == (c << ((6 + p) as u32)) as u64 && (y >> ((31 - z) as u64)) & 1 == 1 ==> (h >> ((63 - p - z) as u64)) & 1 == 1) by (bit_vector);
        assert(4 <= p && p <= 18 && 0 < z && z < 25 - p && c == ((h >> 39) << 1) as u32 && y == (c << ((6 + p) as u32)) as u64 && (y << 32) >> ((64 - z) as u64) == 0 ==> (h << (p as u64)) >> ((64 - z) as u64) == 0) by (bit_vector);
        lemma_lz(h, (64 - p) as u64, z);
    }
}
// other ways to write down a code
pub proof fn lemma_enc_forms(h: u64)
    ensures
        ((h >> 39) << 1) as u32 == ((h >> 39) as u32) << 1, (h >> 39) < 0x200_0000,
        forall|i: u32, r: u32| i < 0x200_0000 && r < 64 ==> #[trigger] ((i << 7) | (r << 1)) | 1 == (i << 7) + (r << 1) + 1,
        forall|i: u64, r: u64| i < 0x200_0000 && r < 64 ==> (#[trigger] ((i << 7) | (r << 1)) | 1) as u32 == ((i as u32) << 7) | ((r as u32) << 1) | 1,
{
    let i = h >> 39;
    assert(i == h >> 39 ==> i < 0x200_0000 && (i << 1) as u32 == (i as u32) << 1) by (bit_vector);
    assert forall|i: u32, r: u32| i < 0x200_0000 && r < 64 implies #[trigger] ((i << 7) | (r << 1)) | 1 == (i << 7) + (r << 1) + 1 by {
        assert(i < 0x200_0000 && r < 64 ==> ((i << 7) | (r << 1)) | 1 == add(add(i << 7, r << 1), 1) && i << 7 <= 0xffff_ff80 && r << 1 <= 126) by (bit_vector);
    }
    assert forall|i: u64, r: u64| i < 0x200_0000 && r < 64 implies (#[trigger] ((i << 7) | (r << 1)) | 1) as u32 == ((i as u32) << 7) | ((r as u32) << 1) | 1 by {
        assert(i < 0x200_0000 && r < 64 ==> (((i << 7) | (r << 1)) | 1) as u32 == ((i as u32) << 7) | ((r as u32) << 1) | 1) by (bit_vector);
    }
}
// what the code computes
pub proof fn lemma_encode(h: u64, p: u8)
    requires 4 <= p <= 18
    ensures
        (h << 0) >> 39 == h >> 39, (h << (p as u64)) >> ((39 + p) as u64) == mid(h, p),
        1 + u64_leading_zeros((h << 25u8) | (1u64 << 24u8)) == rank64(h, 25), 1 <= rank64(h, 25) <= 40,
        u64_leading_zeros(h << 25u8) >= 39 ==> rank64(h, 25) == 40, u64_leading_zeros(h << 25u8) < 39 ==> rank64(h, 25) == 1 + u64_leading_zeros(h << 25u8),
{
    assert((h << 0) >> 39 == h >> 39) by (bit_vector);
    let x = (h << 25u8) | (1u64 << 24u8);
    lemma_lz_u64(x);
    lemma_lz_shift(h, 25, x, 39);
    lemma_lz_le(h, 39);
    lemma_lz_forms64(h, 25);
}
pub proof fn lemma_decode(c: u32, p: u8)
    requires 4 <= p <= 18
    ensures 
        (c << 0) >> ((32 - p) as u32) == c >> ((32 - p) as u32), (c << 25) >> 26 == (c >> 1) & 63, ((c >> 1) & 63) <= 63,
        u32_leading_zeros(c << ((6 + p) as u8)) == lz_run((c << ((6 + p) as u32)) as u64, 32),
{
    assert((c << 0) == c) by (bit_vector);
    assert((c << 25) >> 26 == (c >> 1) & 63) by (bit_vector);
    assert(((c >> 1) & 63) <= 63) by (bit_vector);
    lemma_lz_u32(c << ((6 + p) as u32));
    lemma_lz_le((c << ((6 + p) as u32)) as u64, 32);
}
//@endif

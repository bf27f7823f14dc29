@fn u64_extract
    requires 0 <= lo < hi <= 64, hi - lo < 64
    ensures ret == (num << ((64 - hi) as u64)) >> ((64 - (hi - lo)) as u64)
@at start
    proof { lemma_extract64(num, hi as u64, lo as u64); }
@fn u32_extract
    requires 0 <= lo < hi <= 32, hi - lo < 32
    ensures ret == (num << ((32 - hi) as u32)) >> ((32 - (hi - lo)) as u32)
@at start
    proof { lemma_extract32(num, hi as u32, lo as u32); }
@fn HyperLogLogPlus::encode_hash
    requires 4 <= self.precision <= 18
    ensures ret == enc(hash, self.precision)
@at start
    proof { lemma_encode(hash, self.precision); lemma_enc_forms(hash); }
@fn HyperLogLogPlus::index
    requires 4 <= self.precision <= 18
    ensures ret == dec_idx(hash_code, self.precision)
@at start
    proof { lemma_decode(hash_code, self.precision); }
@fn HyperLogLogPlus::decode_hash
    requires 4 <= self.precision <= 18
    ensures ret.0 == dec_rank(hash_code, self.precision), ret.1 == dec_idx(hash_code, self.precision)
@at start
    proof { lemma_decode(hash_code, self.precision); }

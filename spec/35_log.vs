@fn log
    ensures ret == fd_log(x)
@at start
    broadcast use group_fd;
    proof {
        lemma_hi(f_bits(x));
        if 0 < f_bits(x) < 0x0010_0000_0000_0000 { axiom_scale(x); lemma_hi(f_bits(f_mul(x, f_lit(0x4350_0000_0000_0000)))); }
    }

pub open spec fn est_ok(s: Seq<u64>, k: int) -> bool decreases s.len() - k {
    k < 0 || k >= s.len() || (0x3ff0_0000_0000_0000 <= s[k] <= 0x4140_0000_0000_0000 && (k == 0 || s[k - 1] != s[k]) && est_ok(s, k + 1))
}
pub open spec fn bias_ok(s: Seq<u64>, k: int) -> bool decreases s.len() - k {
    k < 0 || k >= s.len() || ((s[k] <= 0x4140_0000_0000_0000 || 0x8000_0000_0000_0000 <= s[k] <= 0xc140_0000_0000_0000) && bias_ok(s, k + 1))
}
pub open spec fn rows_ok(i: int) -> bool decreases 15 - i {
    i < 0 || i >= 15 || ({
        let e = RAW_ESTIMATE_DATA_row(i);
        let b = BIAS_DATA_row(i);
        e.len() == b.len() && 2 <= e.len() <= 0xffff_ffff && est_ok(e, 0) && bias_ok(b, 0)
    } && rows_ok(i + 1))
}

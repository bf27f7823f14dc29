// ===================================================================
// The two constant tables, by their bit patterns, as extracted.
// TRUSTED: the accessors of the constants return what was extracted.
// ===================================================================
//@if RAW_ESTIMATE_DATA BIAS_DATA
pub mod tabdata {
use super::*;
pub uninterp spec fn RAW_ESTIMATE_DATA_rows() -> int;
pub uninterp spec fn BIAS_DATA_rows() -> int;
pub uninterp spec fn RAW_ESTIMATE_DATA_row(i: int) -> Seq<u64>;
pub uninterp spec fn BIAS_DATA_row(i: int) -> Seq<u64>;
/*TABSHAPE*/
// proved of the extracted tables in a file of their own (tabdata.inc)
#[verifier::external_body]
pub proof fn lemma_rows() ensures rows_ok(0), RAW_ESTIMATE_DATA_rows() == 15, BIAS_DATA_rows() == 15
{ }
}
pub mod tables {
use super::*;
use super::tabdata::*;
proof fn lemma_row(i: int, j: int) requires 0 <= i <= j < 15, rows_ok(i) ensures rows_ok(j) decreases j - i
{ if i < j { lemma_row(i + 1, j); } }
proof fn lemma_est(s: Seq<u64>, i: int, k: int) requires 0 <= i <= k < s.len(), est_ok(s, i)
    ensures 0x3ff0_0000_0000_0000 <= s[k] <= 0x4140_0000_0000_0000, k == 0 || s[k - 1] != s[k]
    decreases k - i
{ if i < k { lemma_est(s, i + 1, k); } }
proof fn lemma_bias_row(s: Seq<u64>, i: int, k: int) requires 0 <= i <= k < s.len(), bias_ok(s, i)
    ensures s[k] <= 0x4140_0000_0000_0000 || 0x8000_0000_0000_0000 <= s[k] <= 0xc140_0000_0000_0000
    decreases k - i
{ if i < k { lemma_bias_row(s, i + 1, k); } }
pub closed spec fn bias_table() -> Seq<Seq<F64>> { Seq::new(BIAS_DATA_rows() as nat, |i: int| BIAS_DATA_row(i).map_values(|b: u64| f_lit(b))) }
pub closed spec fn raw_table() -> Seq<Seq<F64>> { Seq::new(RAW_ESTIMATE_DATA_rows() as nat, |i: int| RAW_ESTIMATE_DATA_row(i).map_values(|b: u64| f_lit(b))) }
// the shape the interpolation needs
pub proof fn lemma_tables(p: u8)
    requires 4 <= p <= 18
    ensures bias_table().len() == 15, raw_table().len() == 15,
        bias_table()[p - 4].len() == raw_table()[p - 4].len(), 2 <= raw_table()[p - 4].len() <= usize::MAX,
        forall|k: int| 0 <= k < raw_table()[p - 4].len() ==> f_ord(#[trigger] raw_table()[p - 4][k]) && f_in(raw_table()[p - 4][k], 1, 0x20_0000),
        forall|k: int| 0 <= k < raw_table()[p - 4].len() ==> f_in(#[trigger] bias_table()[p - 4][k], -0x20_0000, 0x20_0000),
        forall|k: int| 1 <= k < raw_table()[p - 4].len() ==> f_lt(raw_table()[p - 4][k - 1], #[trigger] raw_table()[p - 4][k]) || f_lt(raw_table()[p - 4][k], raw_table()[p - 4][k - 1]),
{
    lemma_rows();
    lemma_row(0, p - 4);
    let e = RAW_ESTIMATE_DATA_row(p - 4);
    let b = BIAS_DATA_row(p - 4);
    let x = raw_table()[p - 4];
    let y = bias_table()[p - 4];
    axiom_lit_int();
    assert forall|k: int| 0 <= k < x.len() implies f_ord(#[trigger] x[k]) && f_in(x[k], 1, 0x20_0000) by {
        lemma_est(e, 0, k);
        assert(x[k] == f_lit(e[k]));
        axiom_lit_bits(e[k]);
        axiom_lit(0x3ff0_0000_0000_0000, e[k]);
        axiom_lit(e[k], 0x4140_0000_0000_0000);
    }
    assert forall|k: int| 0 <= k < x.len() implies f_in(#[trigger] y[k], -0x20_0000, 0x20_0000) by {
        lemma_bias_row(b, 0, k);
        assert(y[k] == f_lit(b[k]));
        axiom_int(-0x20_0000, 0);
        axiom_int(0, 0x20_0000);
        if b[k] <= 0x4140_0000_0000_0000 {
            axiom_lit(0, b[k]);
            axiom_lit(b[k], 0x4140_0000_0000_0000);
            axiom_trans(f_int(-0x20_0000), f_int(0), y[k]);
        } else {
            axiom_lit_neg((b[k] - 0x8000_0000_0000_0000) as u64, 0x4140_0000_0000_0000, b[k], 0xc140_0000_0000_0000);
            axiom_trans(y[k], f_int(0), f_int(0x20_0000));
        }
    }
    assert forall|k: int| 1 <= k < x.len() implies f_lt(x[k - 1], #[trigger] x[k]) || f_lt(x[k], x[k - 1]) by {
        lemma_est(e, 0, k);
        lemma_est(e, 0, k - 1);
        assert(x[k] == f_lit(e[k]) && x[k - 1] == f_lit(e[k - 1]));
        axiom_lit_bits(e[k]);
        axiom_lit_bits(e[k - 1]);
        axiom_f_cmp(x[k - 1], x[k]);
        axiom_f_rev(x[k - 1], x[k]);
        axiom_int(0, 1);
        axiom_lit(0x3ff0_0000_0000_0000, e[k - 1]);
        axiom_trans(f_int(0), f_int(1), x[k - 1]);
        let o = f_cmp(x[k - 1], x[k])->Some_0;
        assert(o is Less || o is Greater || o is Equal);
        if o is Equal { axiom_equal(x[k - 1], x[k]); }
    }
}
}
pub use tables::*;
#[verifier::external_body]
pub fn BIAS_DATA() -> (r: &'static [&'static [F64]])
    ensures r@.len() == bias_table().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == bias_table()[i]
{ unimplemented!() }
#[verifier::external_body]
pub fn RAW_ESTIMATE_DATA() -> (r: &'static [&'static [F64]])
    ensures r@.len() == raw_table().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == raw_table()[i]
{ unimplemented!() }
//@endif

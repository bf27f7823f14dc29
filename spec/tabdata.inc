#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]
// Generated by hllx: the two tables of /repo as extracted, the published ones,
// and what the main file assumes of the extracted ones (lemma_rows).
use vstd::prelude::*;
verus! {
/*TABLE_DATA*/
/*PUBLISHED*/
/*TABSHAPE*/
pub open spec fn same_row(i: int) -> bool { RAW_ESTIMATE_DATA_row(i) == pub_raw(i) && BIAS_DATA_row(i) == pub_bias(i) }
//# theorem_published
// entry for entry
#[verifier::spinoff_prover]
pub proof fn theorem_published()
    ensures RAW_ESTIMATE_DATA_rows() == 15, BIAS_DATA_rows() == 15, forall|i: int| 0 <= i < 15 ==> #[trigger] RAW_ESTIMATE_DATA_row(i) == pub_raw(i) && BIAS_DATA_row(i) == pub_bias(i)
{
    assert(same_row(0)) by (compute_only);
    assert(same_row(1)) by (compute_only);
    assert(same_row(2)) by (compute_only);
    assert(same_row(3)) by (compute_only);
    assert(same_row(4)) by (compute_only);
    assert(same_row(5)) by (compute_only);
    assert(same_row(6)) by (compute_only);
    assert(same_row(7)) by (compute_only);
    assert(same_row(8)) by (compute_only);
    assert(same_row(9)) by (compute_only);
    assert(same_row(10)) by (compute_only);
    assert(same_row(11)) by (compute_only);
    assert(same_row(12)) by (compute_only);
    assert(same_row(13)) by (compute_only);
    assert(same_row(14)) by (compute_only);
    assert forall|i: int| 0 <= i < 15 implies #[trigger] RAW_ESTIMATE_DATA_row(i) == pub_raw(i) && BIAS_DATA_row(i) == pub_bias(i) by {
        assert(same_row(i)) by { if i < 8 { if i == 0 { assert(same_row(0)); } if i == 1 { assert(same_row(1)); } if i == 2 { assert(same_row(2)); } if i == 3 { assert(same_row(3)); } if i == 4 { assert(same_row(4)); } if i == 5 { assert(same_row(5)); } if i == 6 { assert(same_row(6)); } if i == 7 { assert(same_row(7)); } } else { if i == 8 { assert(same_row(8)); } if i == 9 { assert(same_row(9)); } if i == 10 { assert(same_row(10)); } if i == 11 { assert(same_row(11)); } if i == 12 { assert(same_row(12)); } if i == 13 { assert(same_row(13)); } if i == 14 { assert(same_row(14)); } } }
    }
}
//# lemma_rows
pub proof fn lemma_rows() ensures rows_ok(0), RAW_ESTIMATE_DATA_rows() == 15, BIAS_DATA_rows() == 15
{ assert(rows_ok(0)) by (compute_only); }
//#
} // verus!
fn main() {}

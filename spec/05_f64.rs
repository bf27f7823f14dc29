// ===================================================================
// f64: the axioms about the operations.  Each is a theorem about IEEE 754
// binary64 (Flocq's formalisation, with one NaN) proved in proofs/F64.v; the
// statements there are generated from this text by tools/f64stmt.py.
// ===================================================================
pub open spec fn big() -> int { 0x20_0000_0000_0000 }
pub open spec fn f_in(x: F64, i: int, j: int) -> bool { f_le(f_int(i), x) && f_le(x, f_int(j)) }
//@f64
#[verifier::external_body]
pub broadcast proof fn axiom_f_cmp(a: F64, b: F64)
    ensures (#[trigger] f_cmp(a, b)) is Some <==> (f_ord(a) && f_ord(b)),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_f_rev(a: F64, b: F64)
    ensures
        #[trigger] f_cmp(a, b) == Some(Ordering::Less) <==> f_cmp(b, a) == Some(Ordering::Greater),
        f_cmp(a, b) == Some(Ordering::Equal) <==> f_cmp(b, a) == Some(Ordering::Equal),
        f_cmp(a, b) == Some(Ordering::Greater) <==> f_cmp(b, a) == Some(Ordering::Less),
{ }
#[verifier::external_body]
pub proof fn axiom_trans(a: F64, b: F64, c: F64)
    requires f_le(a, b), f_le(b, c)
    ensures f_le(a, c), (f_lt(a, b) || f_lt(b, c)) ==> f_lt(a, c)
{ }
#[verifier::external_body]
pub proof fn axiom_comm(a: F64, b: F64)
    ensures f_add(a, b) == f_add(b, a), f_mul(a, b) == f_mul(b, a)
{ }
// integers up to 2^53 are exact, beyond that they keep their order
#[verifier::external_body]
pub proof fn axiom_int(i: int, j: int)
    requires -big() <= i <= big(), -big() <= j <= big()
    ensures f_ord(f_int(i)), f_le(f_int(i), f_int(j)) <==> i <= j, f_lt(f_int(i), f_int(j)) <==> i < j
{ }
#[verifier::external_body]
pub proof fn axiom_int_mono(i: int, j: int)
    requires 0 <= i <= j <= 0x1_0000_0000_0000_0000
    ensures f_le(f_int(i), f_int(j))
{ }
#[verifier::external_body]
pub proof fn axiom_lit_int()
    ensures f_int(0) == f_lit(0), f_int(1) == f_lit(0x3ff0_0000_0000_0000), f_int(2) == f_lit(0x4000_0000_0000_0000), f_int(4) == f_lit(0x4010_0000_0000_0000), f_int(8) == f_lit(0x4020_0000_0000_0000), f_int(0x20_0000) == f_lit(0x4140_0000_0000_0000), f_int(-0x20_0000) == f_lit(0xc140_0000_0000_0000), f_int(-1) == f_lit(0xbff0_0000_0000_0000)
{ }
// non-negative numbers are ordered like their bits
#[verifier::external_body]
pub proof fn axiom_lit(b: u64, c: u64)
    requires b <= c, c <= 0x7ff0_0000_0000_0000
    ensures f_le(f_lit(b), f_lit(c))
{ }
// negative numbers the other way round
#[verifier::external_body]
pub proof fn axiom_lit_neg(b: u64, c: u64, d: u64, e: u64)
    requires b <= c, c <= 0x7ff0_0000_0000_0000, d == b + 0x8000_0000_0000_0000, e == c + 0x8000_0000_0000_0000
    ensures f_le(f_lit(e), f_lit(d)), f_le(f_lit(d), f_int(0))
{ }
// a number is its bits
#[verifier::external_body]
pub proof fn axiom_bits(x: F64)
    ensures f_lit(f_bits(x)) == x, f_ord(x) ==> (f_bits(x) <= 0x7ff0_0000_0000_0000 || 0x8000_0000_0000_0000 <= f_bits(x) <= 0xfff0_0000_0000_0000),
        f_lt(f_int(0), x) ==> 0 < f_bits(x) <= 0x7ff0_0000_0000_0000, f_le(f_int(0), x) ==> f_bits(x) <= 0x8000_0000_0000_0000,
        f_ord(x) <==> !(0x7ff0_0000_0000_0000 < f_bits(x) < 0x8000_0000_0000_0000 || 0xfff0_0000_0000_0000 < f_bits(x))
{ }
#[verifier::external_body]
pub proof fn axiom_lit_bits(b: u64)
    requires b <= 0x7ff0_0000_0000_0000 || 0x8000_0000_0000_0000 <= b <= 0xfff0_0000_0000_0000
    ensures f_bits(f_lit(b)) == b, f_ord(f_lit(b))
{ }
// the result of an operation between integers is rounded to between them
#[verifier::external_body]
pub proof fn axiom_add_in(a: F64, b: F64, i: int, j: int, k: int, l: int)
    requires f_in(a, i, j), f_in(b, k, l), -big() <= i + k, j + l <= big(), -big() <= i <= j <= big(), -big() <= k <= l <= big()
    ensures f_in(f_add(a, b), i + k, j + l)
{ }
#[verifier::external_body]
pub proof fn axiom_sub_in(a: F64, b: F64, i: int, j: int, k: int, l: int)
    requires f_in(a, i, j), f_in(b, k, l), -big() <= i - l, j - k <= big(), -big() <= i <= j <= big(), -big() <= k <= l <= big()
    ensures f_in(f_sub(a, b), i - l, j - k)
{ }
#[verifier::external_body]
pub proof fn axiom_mul_in(a: F64, b: F64, i: int, j: int, k: int, l: int)
    requires f_in(a, i, j), f_in(b, k, l), 0 <= i <= j <= big(), 0 <= k <= l <= big(), j * l <= big()
    ensures f_in(f_mul(a, b), i * k, j * l)
{ }
#[verifier::external_body]
pub proof fn axiom_mul_abs(a: F64, b: F64, i: int, k: int)
    requires f_in(a, -i, i), f_in(b, -k, k), 0 <= i <= big(), 0 <= k <= big(), i * k <= big()
    ensures f_in(f_mul(a, b), -(i * k), i * k)
{ }
// the quotient of numbers up to i k by numbers from k on
#[verifier::external_body]
pub proof fn axiom_div_in(a: F64, b: F64, i: int, k: int)
    requires f_in(a, 0, i * k), f_le(f_int(k), b), 0 <= i <= big(), 1 <= k <= big(), i * k <= big()
    ensures f_in(f_div(a, b), 0, i)
{ }
#[verifier::external_body]
pub proof fn axiom_div_abs(a: F64, b: F64, i: int)
    requires f_in(a, -i, i), f_le(f_int(1), b), 0 <= i <= big()
    ensures f_in(f_div(a, b), -i, i)
{ }
// a part of a whole
#[verifier::external_body]
pub proof fn axiom_div_part(a: F64, b: F64, i: int)
    requires f_le(f_int(0), a), f_le(a, b), f_lt(f_int(0), b), f_le(b, f_int(i)), 1 <= i <= big()
    ensures f_in(f_div(a, b), 0, 1)
{ }
#[verifier::external_body]
pub proof fn axiom_div_pos(a: F64, b: F64, i: int)
    requires f_in(a, 1, i), 1 <= i <= big(), f_lt(f_int(0), b), f_le(b, f_int(0x1_0000_0000_0000_0000))
    ensures f_lt(f_int(0), f_div(a, b))
{ }
// dividing a finite number by a positive one never is NaN (it may overflow)
#[verifier::external_body]
pub proof fn axiom_div_ord(a: F64, b: F64, i: int)
    requires f_in(a, 0, i), 0 <= i <= big(), f_lt(f_int(0), b)
    ensures f_le(f_int(0), f_div(a, b))
{ }
#[verifier::external_body]
pub proof fn axiom_div_self(i: int)
    requires 1 <= i <= big()
    ensures f_div(f_int(i), f_int(i)) == f_int(1)
{ }
#[verifier::external_body]
pub proof fn axiom_div_same(a: F64, i: int)
    requires f_in(a, -i, i), 1 <= i <= big(), f_lt(f_int(0), a) || f_lt(a, f_int(0))
    ensures f_div(a, a) == f_int(1)
{ }
#[verifier::external_body]
pub proof fn axiom_neg_one(x: F64)
    ensures f_mul(f_lit(0xbff0_0000_0000_0000), x) == f_neg(x)
{ }
#[verifier::external_body]
pub proof fn axiom_neg_mul(a: F64, b: F64)
    ensures f_mul(f_neg(a), b) == f_neg(f_mul(a, b)), f_mul(a, f_neg(b)) == f_neg(f_mul(a, b))
{ }
#[verifier::external_body]
pub proof fn axiom_two32()
    ensures f_int(0x1_0000_0000) == f_lit(0x41f0_0000_0000_0000), f_div(f_int(0x1_0000_0000), f_lit(0x403e_0000_0000_0000)) == f_lit(0x41a1111111111111)
{ }
#[verifier::external_body]
pub proof fn axiom_minus_zero()
    ensures f_cmp(f_lit(0x8000_0000_0000_0000), f_lit(0)) == Some(Ordering::Equal)
{ }
// only the zeros are equal without being the same
#[verifier::external_body]
pub proof fn axiom_equal(a: F64, b: F64)
    requires f_cmp(a, b) == Some(Ordering::Equal), f_lt(f_int(0), a)
    ensures a == b
{ }
// a finite number other than zero times any number, infinite too
#[verifier::external_body]
pub proof fn axiom_mul_ord(a: F64, b: F64, i: int)
    requires f_in(a, 1, i) || f_in(a, -i, -1), 1 <= i <= big(), f_ord(b)
    ensures f_ord(f_mul(a, b)), f_in(a, 1, i) && f_le(f_int(0), b) ==> f_le(f_int(0), f_mul(a, b)),
        f_in(a, -i, -1) && f_le(b, f_int(0)) ==> f_le(f_int(0), f_mul(a, b))
{ }
#[verifier::external_body]
pub proof fn axiom_mul_zero(i: int)
    requires 1 <= i <= big()
    ensures f_mul(f_int(i), f_int(0)) == f_int(0)
{ }
#[verifier::external_body]
pub proof fn axiom_mul_int(i: int, j: int)
    requires -big() <= i <= big(), -big() <= j <= big(), -big() <= i * j <= big(), 0 < i * j || i * j < 0
    ensures f_mul(f_int(i), f_int(j)) == f_int(i * j)
{ }
// adding what is not negative does not make smaller
#[verifier::external_body]
pub proof fn axiom_add_mono(a: F64, b: F64, i: int, j: int)
    requires f_in(a, 0, i), f_in(b, 0, j), 0 <= i, 0 <= j, i + j <= big()
    ensures f_le(b, f_add(a, b)), f_le(a, f_add(a, b))
{ }
#[verifier::external_body]
pub proof fn axiom_sub_sign(a: F64, b: F64, i: int, j: int)
    requires f_in(a, -i, i), f_in(b, -j, j), 0 <= i, 0 <= j, i + j <= big()
    ensures f_le(b, a) ==> f_le(f_int(0), f_sub(a, b)), f_lt(b, a) ==> f_lt(f_int(0), f_sub(a, b)), f_lt(a, b) ==> f_lt(f_sub(a, b), f_int(0))
{ }
#[verifier::external_body]
pub proof fn axiom_sub_mono(a: F64, b: F64, c: F64, i: int, j: int)
    requires f_in(a, -i, i), f_in(b, -i, i), f_in(c, -j, j), 0 <= i, 0 <= j, i + j <= big(), f_le(a, b)
    ensures f_le(f_sub(a, c), f_sub(b, c))
{ }
// either zero is neutral
#[verifier::external_body]
pub proof fn axiom_add_zero(x: F64)
    requires f_lt(f_int(0), x)
    ensures f_add(f_lit(0), x) == x, f_add(f_lit(0x8000_0000_0000_0000), x) == x
{ }
#[verifier::external_body]
pub proof fn axiom_add_int(i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= big()
    ensures f_add(f_int(i), f_int(j)) == f_int(i + j)
{ }
#[verifier::external_body]
pub proof fn axiom_min(a: F64, b: F64)
    requires f_ord(a), f_ord(b)
    ensures f_min(a, b) == a || f_min(a, b) == b, f_le(f_min(a, b), a), f_le(f_min(a, b), b)
{ }
// a positive subnormal times 2^54 is a normal number of moderate size
#[verifier::external_body]
pub proof fn axiom_scale(x: F64)
    requires 0 < f_bits(x) < 0x0010_0000_0000_0000
    ensures 0x0010_0000_0000_0000 <= f_bits(f_mul(x, f_lit(0x4350_0000_0000_0000))) < 0x0450_0000_0000_0000
{ }
// the special cases of the logarithm
#[verifier::external_body]
pub proof fn axiom_log_zero(b: u64)
    requires b == 0 || b == 0x8000_0000_0000_0000
    ensures f_div(f_lit(0xbff0_0000_0000_0000), f_mul(f_lit(b), f_lit(b))) == f_lit(0xfff0_0000_0000_0000)
{ }
#[verifier::external_body]
pub proof fn axiom_log_negative(x: F64)
    ensures !f_ord(f_div(f_sub(x, x), f_lit(0)))
{ }
//@endf64

#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]
// Generated by hllx from /repo's current source; do not edit.
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::bits::*;
use std::collections::HashSet;
use std::marker::PhantomData;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
pub mod iters {
use vstd::prelude::*;
// an iterator over s that has given n items (every loop's own invariant)
#[verifier::opaque]
pub open spec fn iter_at<T>(it: Seq<T>, s: Seq<T>, n: int) -> bool { it == s.skip(n) }
pub broadcast proof fn lemma_iter_at<T>(it: Seq<T>, s: Seq<T>, n: int)
    requires #[trigger] iter_at(it, s, n), 0 <= n <= s.len()
    ensures it.len() == s.len() - n, n < s.len() ==> it[0] == s[n]
{ reveal(iter_at); }
pub broadcast proof fn lemma_iter_at_next<T>(it: Seq<T>, s: Seq<T>, n: int)
    requires #[trigger] iter_at(it, s, n), 0 <= n < s.len()
    ensures #[trigger] iter_at(it.drop_first(), s, n + 1)
{ reveal(iter_at); assert(s.skip(n).drop_first() =~= s.skip(n + 1)); }
pub broadcast proof fn lemma_iter_at_start<T>(s: Seq<T>)
    ensures #[trigger] iter_at(s, s, 0)
{ reveal(iter_at); assert(s.skip(0) =~= s); }
pub broadcast group group_iter_at { lemma_iter_at, lemma_iter_at_next, lemma_iter_at_start }
}
pub use iters::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, group_iter_at};

// ===================================================================
// TRUSTED: f64.  An opaque type with uninterpreted, deterministic
// operations; what is assumed of them is in 05_f64.rs.
// ===================================================================
#[verifier::external_body]
pub struct F64 { v: f64 }
impl Clone for F64 { #[verifier::external_body] fn clone(&self) -> (r: F64) ensures r == *self { F64 { v: self.v } } }
impl Copy for F64 {}
pub uninterp spec fn f_lit(bits: u64) -> F64;
pub uninterp spec fn f_bits(a: F64) -> u64;
pub uninterp spec fn f_int(i: int) -> F64;
pub uninterp spec fn f_add(a: F64, b: F64) -> F64;
pub uninterp spec fn f_sub(a: F64, b: F64) -> F64;
pub uninterp spec fn f_mul(a: F64, b: F64) -> F64;
pub uninterp spec fn f_div(a: F64, b: F64) -> F64;
pub uninterp spec fn f_neg(a: F64) -> F64;
pub uninterp spec fn f_min(a: F64, b: F64) -> F64;
pub uninterp spec fn f_max(a: F64, b: F64) -> F64;
pub uninterp spec fn f_ln(a: F64) -> F64;
pub uninterp spec fn f_cmp(a: F64, b: F64) -> Option<Ordering>;
pub open spec fn f_le(a: F64, b: F64) -> bool { f_cmp(a, b) == Some(Ordering::Less) || f_cmp(a, b) == Some(Ordering::Equal) }
pub open spec fn f_lt(a: F64, b: F64) -> bool { f_cmp(a, b) == Some(Ordering::Less) }
pub open spec fn f_gt(a: F64, b: F64) -> bool { f_cmp(a, b) == Some(Ordering::Greater) }
pub open spec fn f_ge(a: F64, b: F64) -> bool { f_cmp(a, b) == Some(Ordering::Greater) || f_cmp(a, b) == Some(Ordering::Equal) }
// two floats compare (neither is NaN)
pub open spec fn f_ord(a: F64) -> bool { f_cmp(a, a) is Some }
// IEEE 754 addition and multiplication commute
impl std::ops::Add for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> (r: F64) ensures f_add(self, o) == f_add(o, self) { F64 { v: self.v + o.v } } }
impl vstd::std_specs::ops::AddSpecImpl for F64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F64) -> bool { true }
    open spec fn add_spec(self, o: F64) -> F64 { f_add(self, o) }
}
impl std::ops::Sub for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { F64 { v: self.v - o.v } } }
impl vstd::std_specs::ops::SubSpecImpl for F64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F64) -> bool { true }
    open spec fn sub_spec(self, o: F64) -> F64 { f_sub(self, o) }
}
impl std::ops::Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> (r: F64) ensures f_mul(self, o) == f_mul(o, self) { F64 { v: self.v * o.v } } }
impl vstd::std_specs::ops::MulSpecImpl for F64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F64) -> bool { true }
    open spec fn mul_spec(self, o: F64) -> F64 { f_mul(self, o) }
}
impl std::ops::Div for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { F64 { v: self.v / o.v } } }
impl vstd::std_specs::ops::DivSpecImpl for F64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F64) -> bool { true }
    open spec fn div_spec(self, o: F64) -> F64 { f_div(self, o) }
}
impl std::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> F64 { F64 { v: -self.v } } }
impl vstd::std_specs::ops::NegSpecImpl for F64 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F64 { f_neg(self) }
}
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> bool { self.v == o.v } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F64 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F64) -> bool { f_cmp(*self, *o) == Some(Ordering::Equal) }
}
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> Option<Ordering> { self.v.partial_cmp(&o.v) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F64) -> Option<Ordering> { f_cmp(*self, *o) }
}
#[verifier::external_body]
pub const fn v_lit(bits: u64) -> (r: F64) ensures r == f_lit(bits) { F64 { v: f64::from_bits(bits) } }
impl F64 {
    #[verifier::external_body]
    pub fn from_bits(bits: u64) -> (r: F64) ensures r == f_lit(bits) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bits(self) -> (r: u64) ensures r == f_bits(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn ln(self) -> (r: F64) ensures r == f_ln(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_min(self, o: F64) -> (r: F64) ensures r == f_min(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_max(self, o: F64) -> (r: F64) ensures r == f_max(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_partial_cmp(&self, o: &F64) -> (r: Option<Ordering>) ensures r == f_cmp(*self, *o) { unimplemented!() }
}
pub trait AsF64: Sized { spec fn as_f64_spec(self) -> F64; fn as_f64(self) -> (r: F64) ensures r == self.as_f64_spec(); }
impl AsF64 for u64 { open spec fn as_f64_spec(self) -> F64 { f_int(self as int) } #[verifier::external_body] fn as_f64(self) -> F64 { unimplemented!() } }
impl AsF64 for u32 { open spec fn as_f64_spec(self) -> F64 { f_int(self as int) } #[verifier::external_body] fn as_f64(self) -> F64 { unimplemented!() } }
impl AsF64 for i32 { open spec fn as_f64_spec(self) -> F64 { f_int(self as int) } #[verifier::external_body] fn as_f64(self) -> F64 { unimplemented!() } }
impl AsF64 for usize { open spec fn as_f64_spec(self) -> F64 { f_int(self as int) } #[verifier::external_body] fn as_f64(self) -> F64 { unimplemented!() } }

#[verifier::external_body]
pub fn v_panic<A>() -> (r: A) requires false { unimplemented!() }

// ===================================================================
// std's iterators and collections, as far as the code uses them: the
// contracts stated here, each with an implementation that is verified.
// TRUSTED: that std's implementation has the same contract.
// ===================================================================
pub mod seqit {
use super::*;
use vstd::std_specs::iter::*;
broadcast use vstd::std_specs::hash::group_hash_axioms;
// a finite iterator: the items still to come (held last first)
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T> { v: Vec<T> }
impl<T> View for SeqIter<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@.reverse() } }
pub open spec fn flat<T>(s: Seq<SeqIter<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { s[0]@ + flat(s.drop_first()) }
}
pub open spec fn take_upto<T>(s: Seq<T>, n: int) -> Seq<T> { s.take(if n <= s.len() { n } else { s.len() as int }) }
// the items in the opposite order
fn reversed<T>(s: Vec<T>) -> (r: Vec<T>) ensures r@ == s@.reverse()
{
    let mut s = s;
    let ghost __s = s@;
    let mut r = Vec::new();
    while s.len() > 0
        invariant s@ == __s.take(s@.len() as int), s@.len() <= __s.len(), r@ == __s.skip(s@.len() as int).reverse()
        decreases s@.len()
    {
        let x = s.pop().unwrap();
        r.push(x);
        assert(s@ =~= __s.take(s@.len() as int));
        assert(r@ =~= __s.skip(s@.len() as int).reverse());
    }
    assert(r@ =~= __s.reverse());
    r
}
fn of<T>(v: Vec<T>) -> (r: SeqIter<T>) ensures r@ == v@
{
    let ghost __v = v@;
    let v = reversed(v);
    assert(v@.reverse() =~= __v);
    SeqIter { v }
}
impl<T> SeqIter<T> {
    pub open spec fn wf(&self) -> bool { true }
    fn rest(self) -> (r: Vec<T>) ensures r@ == self@ { reversed(self.v) }
    pub fn v_next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    {
        let ghost __v = self.v@;
        let r = self.v.pop();
        proof { if __v.len() > 0 { assert(self.v@.reverse() =~= __v.reverse().drop_first()); } else { assert(self.v@ =~= __v); } }
        r
    }
    pub fn v_map<B, F: Fn(T) -> B>(self, f: F) -> (r: SeqIter<B>)
        requires forall|k: int| 0 <= k < self@.len() ==> #[trigger] f.requires((self@[k],)),
        ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> f.ensures((self@[k],), #[trigger] r@[k]),
    {
        let mut i = self;
        let mut r = Vec::new();
        while let Some(x) = i.v_next()
            invariant r@.len() + i@.len() == self@.len(), i@ == self@.skip(r@.len() as int),
                forall|k: int| 0 <= k < self@.len() ==> #[trigger] f.requires((self@[k],)),
                forall|k: int| 0 <= k < r@.len() ==> f.ensures((self@[k],), #[trigger] r@[k]),
            ensures i@.len() == 0
            decreases i@.len()
        {
            assert(x == self@[r@.len() as int]);
            assert(i@ =~= self@.skip(r@.len() as int + 1));
            r.push(f(x));
        }
        of(r)
    }
    pub fn v_take(self, n: usize) -> (r: SeqIter<T>)
        ensures r@ == take_upto(self@, n as int),
    {
        let mut v = self.rest();
        if n < v.len() { v.truncate(n); }
        assert(v@ =~= take_upto(self@, n as int));
        of(v)
    }
    pub fn v_skip(self, n: usize) -> (r: SeqIter<T>)
        ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }),
    {
        let mut i = self;
        let mut k = 0;
        proof { assert(i@ =~= self@.skip(0)); }
        while k < n
            invariant 0 <= k <= n, i@ == self@.skip(if k <= self@.len() { k as int } else { self@.len() as int })
            decreases n - k
        {
            let _ = i.v_next();
            k += 1;
            assert(i@ =~= self@.skip(if k <= self@.len() { k as int } else { self@.len() as int }));
        }
        i
    }
    pub fn v_enumerate(self) -> (r: SeqIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (k as usize, self@[k]),
    {
        let mut i = self;
        let mut r = Vec::new();
        while let Some(x) = i.v_next()
            invariant r@.len() + i@.len() == self@.len(), i@ == self@.skip(r@.len() as int),
                forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (k as usize, self@[k]),
            ensures i@.len() == 0
            decreases i@.len()
        {
            assert(x == self@[r@.len() as int]);
            assert(i@ =~= self@.skip(r@.len() as int + 1));
            r.push((r.len(), x));
        }
        of(r)
    }
    pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self@ { self.rest() }
    pub fn v_into_iter(self) -> (r: SeqIter<T>) ensures r@ == self@ { self }
    pub fn v_chain(self, o: SeqIter<T>) -> (r: SeqIter<T>) ensures r@ == self@ + o@
    {
        let mut v = self.rest();
        let mut w = o.rest();
        v.append(&mut w);
        of(v)
    }
    pub fn v_zip<U>(self, o: SeqIter<U>) -> (r: SeqIter<(T, U)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k], o@[k]),
    {
        let mut i = self;
        let mut j = o;
        let mut r = Vec::new();
        loop
            invariant_except_break r@.len() + i@.len() == self@.len(), i@ == self@.skip(r@.len() as int),
                r@.len() + j@.len() == o@.len(), j@ == o@.skip(r@.len() as int),
            invariant forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k], o@[k]),
            ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
                forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k], o@[k]),
            decreases i@.len()
        {
            let Some(x) = i.v_next() else { break; };
            let Some(y) = j.v_next() else { break; };
            assert(x == self@[r@.len() as int] && y == o@[r@.len() as int]);
            assert(i@ =~= self@.skip(r@.len() as int + 1));
            assert(j@ =~= o@.skip(r@.len() as int + 1));
            r.push((x, y));
        }
        of(r)
    }
}
pub proof fn lemma_flat_push<T>(s: Seq<SeqIter<T>>, x: SeqIter<T>) ensures flat(s.push(x)) == flat(s) + x@ decreases s.len()
{
    reveal_with_fuel(flat, 2);
    if s.len() == 0 { assert(s.push(x).drop_first() =~= s); assert(flat(s.push(x)) =~= flat(s) + x@); }
    else { lemma_flat_push(s.drop_first(), x); assert(s.push(x).drop_first() =~= s.drop_first().push(x)); assert(flat(s.push(x)) =~= flat(s) + x@); }
}
impl<T> SeqIter<SeqIter<T>> {
    pub fn v_flatten(self) -> (r: SeqIter<T>) ensures r@ == flat(self@)
    {
        let mut i = self;
        let mut r: Vec<T> = Vec::new();
        proof { assert(self@.take(0) =~= Seq::empty()); }
        while let Some(x) = i.v_next()
            invariant i@.len() <= self@.len(), i@ == self@.skip(self@.len() - i@.len()), r@ == flat(self@.take(self@.len() - i@.len()))
            ensures i@.len() == 0
            decreases i@.len()
        {
            let ghost n = self@.len() - i@.len() - 1;
            assert(x == self@[n]);
            proof { lemma_flat_push(self@.take(n), x); assert(self@.take(n).push(x) =~= self@.take(n + 1)); assert(i@ =~= self@.skip(n + 1)); }
            let mut w = x.rest();
            r.append(&mut w);
        }
        proof { assert(self@.take(self@.len() as int) =~= self@); }
        of(r)
    }
}
impl<'a, T: Copy> SeqIter<&'a T> {
    pub fn v_copied(self) -> (r: SeqIter<T>)
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < r@.len() ==> r@[k] == *self@[k],
    {
        let mut i = self;
        let mut r = Vec::new();
        while let Some(x) = i.v_next()
            invariant r@.len() + i@.len() == self@.len(), i@ == self@.skip(r@.len() as int),
                forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == *self@[k],
            ensures i@.len() == 0
            decreases i@.len()
        {
            assert(x == self@[r@.len() as int]);
            assert(i@ =~= self@.skip(r@.len() as int + 1));
            r.push(*x);
        }
        of(r)
    }
    pub fn v_cloned(self) -> (r: SeqIter<T>)
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < r@.len() ==> r@[k] == *self@[k],
    { self.v_copied() }
}
// the sum of floats: a left fold from the additive identity
pub uninterp spec fn f_zero() -> F64;
#[verifier::external_body]
fn v_zero() -> (r: F64) ensures r == f_zero() { unimplemented!() }
pub open spec fn f_sum(s: Seq<F64>) -> F64 decreases s.len() {
    if s.len() == 0 { f_zero() } else { f_add(f_sum(s.drop_last()), s.last()) }
}
impl SeqIter<F64> {
    pub fn v_sum(self) -> (r: F64) ensures r == f_sum(self@)
    {
        let mut i = self;
        let mut r = v_zero();
        proof { assert(self@.take(0) =~= Seq::empty()); }
        while let Some(x) = i.v_next()
            invariant i@.len() <= self@.len(), i@ == self@.skip(self@.len() - i@.len()), r == f_sum(self@.take(self@.len() - i@.len()))
            ensures i@.len() == 0
            decreases i@.len()
        {
            let ghost n = self@.len() - i@.len() - 1;
            assert(x == self@[n]);
            proof { assert(self@.take(n + 1).drop_last() =~= self@.take(n)); assert(i@ =~= self@.skip(n + 1)); }
            r = r + x;
        }
        proof { assert(self@.take(self@.len() as int) =~= self@); }
        r
    }
}
pub fn v_range(lo: usize, hi: usize) -> (r: SeqIter<usize>)
    ensures r@.len() == (if lo <= hi { hi - lo } else { 0 }), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == lo + k,
{
    let mut r = Vec::new();
    let mut x = lo;
    while x < hi
        invariant lo <= hi ==> lo <= x <= hi, lo > hi ==> x == lo, r@.len() == x - lo, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == lo + k
        decreases hi - x
    { r.push(x); x += 1; }
    of(r)
}
pub trait VIter<T> {
    spec fn vi(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: SeqIter<&'a T>)
        ensures r@.len() == self.vi().len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.vi()[k];
    fn v_into_iter<'a>(&'a self) -> (r: SeqIter<&'a T>)
        ensures r@.len() == self.vi().len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.vi()[k];
}
impl<T> VIter<T> for Vec<T> {
    open spec fn vi(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> SeqIter<&'a T>
    {
        let mut r: Vec<&'a T> = Vec::new();
        let mut i = 0;
        while i < self.len()
            invariant i == r@.len(), i <= self@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self@[k]
            decreases self@.len() - i
        { r.push(&self[i]); i += 1; }
        of(r)
    }
    fn v_into_iter<'a>(&'a self) -> SeqIter<&'a T> { self.v_iter() }
}
pub trait VTake: Sized { spec fn is_default(&self) -> bool; fn v_take_dflt(&mut self) -> (r: Self) ensures r == *old(self), final(self).is_default(); }
impl VTake for HashSet<u32> { open spec fn is_default(&self) -> bool { self@ == Set::<u32>::empty() } fn v_take_dflt(&mut self) -> Self { let mut r: HashSet<u32> = HashSet::new(); std::mem::swap(self, &mut r); r } }
impl<T> VTake for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } fn v_take_dflt(&mut self) -> Self { let mut r: Vec<T> = Vec::new(); std::mem::swap(self, &mut r); r } }
pub fn v_mem_take<T: VTake>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { x.v_take_dflt() }
// sorting permutes
pub trait VSort { spec fn vso(&self) -> Seq<u32>;
    fn v_sort(&mut self)
        ensures final(self).vso().len() == old(self).vso().len(), final(self).vso().to_multiset() == old(self).vso().to_multiset(),
            forall|x: u32| #[trigger] final(self).vso().contains(x) <==> old(self).vso().contains(x),
            old(self).vso().no_duplicates() ==> final(self).vso().no_duplicates(),
            forall|i: int, j: int| 0 <= i < j < final(self).vso().len() ==> final(self).vso()[i] <= final(self).vso()[j];
    fn v_sort_unstable(&mut self)
        ensures final(self).vso().len() == old(self).vso().len(), final(self).vso().to_multiset() == old(self).vso().to_multiset(),
            forall|x: u32| #[trigger] final(self).vso().contains(x) <==> old(self).vso().contains(x),
            old(self).vso().no_duplicates() ==> final(self).vso().no_duplicates(),
            forall|i: int, j: int| 0 <= i < j < final(self).vso().len() ==> final(self).vso()[i] <= final(self).vso()[j];
}
impl VSort for Vec<u32> { open spec fn vso(&self) -> Seq<u32> { self@ }
    fn v_sort(&mut self)
    {
        let ghost s0 = self@;
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), self@.len() == s0.len(), self@.to_multiset() == s0.to_multiset(),
                forall|a: int, b: int| 0 <= a < b < i ==> self@[a] <= self@[b],
            decreases self@.len() - i
        {
            let mut j = i;
            while j > 0 && self[j - 1] > self[j]
                invariant 0 <= j <= i < self@.len(), self@.len() == s0.len(), self@.to_multiset() == s0.to_multiset(),
                    forall|a: int, b: int| 0 <= a < b <= i && b != j ==> self@[a] <= self@[b],
                decreases j
            {
                let x = self[j - 1];
                let y = self[j];
                let ghost s = self@;
                self.set(j - 1, y);
                self.set(j, x);
                proof { lemma_swap(s, j - 1, j as int); }
                j -= 1;
            }
            i += 1;
        }
        proof { lemma_same_items(s0, self@); }
    }
    fn v_sort_unstable(&mut self) { self.v_sort() }
}
proof fn lemma_swap(s: Seq<u32>, i: int, j: int) requires 0 <= i < j < s.len()
    ensures s.update(i, s[j]).update(j, s[i]).to_multiset() == s.to_multiset()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::to_multiset_update(s, i, s[j]);
    vstd::seq_lib::to_multiset_update(s.update(i, s[j]), j, s[i]);
    assert(s.update(i, s[j]).update(j, s[i]).to_multiset() =~= s.to_multiset());
}
proof fn lemma_same_items(a: Seq<u32>, b: Seq<u32>) requires a.to_multiset() == b.to_multiset(), a.len() == b.len()
    ensures forall|x: u32| #[trigger] b.contains(x) <==> a.contains(x), a.no_duplicates() ==> b.no_duplicates()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: u32| #[trigger] b.contains(x) <==> a.contains(x) by { assert(a.to_multiset().count(x) > 0 <==> a.contains(x)); assert(b.to_multiset().count(x) > 0 <==> b.contains(x)); }
    if a.no_duplicates() {
        a.lemma_multiset_has_no_duplicates();
        assert(b.to_multiset() == a.to_multiset());
        b.lemma_multiset_has_no_duplicates_conv();
    }
}
type HI<'a> = std::collections::hash_set::Iter<'a, u32>;
fn items<'a>(m: &'a HashSet<u32>) -> (r: Vec<&'a u32>)
    ensures
            forall|k: int| 0 <= k < r@.len() ==> m@.contains(*(#[trigger] r@[k])),
            forall|x: u32| #[trigger] m@.contains(x) ==> exists|k: int| 0 <= k < r@.len() && *r@[k] == x,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]) != *(#[trigger] r@[j]),
            r@.len() == m@.len(),
{
    let mut it = m.iter();
    let ghost s = <HI as IteratorSpec>::remaining(&it);
    let mut r: Vec<&'a u32> = Vec::new();
    assert forall|k: int| 0 <= k < s.len() implies m@.contains(*(#[trigger] s[k])) by {
        let v = s.map_values(|x: &u32| *x);
        assert(v.no_duplicates());
        v.unique_seq_to_set();
        assert forall|x: u32| m@.contains(x) implies v.to_set().contains(x) by { let i = choose|i: int| 0 <= i < s.len() && *s[i] == x; assert(v[i] == x); }
        vstd::set_lib::lemma_subset_equality(m@, v.to_set());
        assert(v[k] == *s[k]);
    };
    assert(forall|x: u32| #[trigger] m@.contains(x) ==> exists|k: int| 0 <= k < s.len() && *s[k] == x);
    assert(s.no_duplicates());
    assert(forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j]));
    while let Some(x) = it.next()
        invariant s.len() == r@.len() + <HI as IteratorSpec>::remaining(&it).len(), <HI as IteratorSpec>::remaining(&it) == s.skip(r@.len() as int),
            <HI as IteratorSpec>::obeys_prophetic_iter_laws(&it), <HI as IteratorSpec>::decrease(&it) is Some,
            forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == s[k]
        ensures r@ == s
        decreases <HI as IteratorSpec>::decrease(&it)->Some_0
    {
        assert(<HI as IteratorSpec>::remaining(&it) =~= s.skip(r@.len() as int + 1));
        r.push(x);
    }
    r
}
// a HashSet iterates over its elements, each once, in some order
pub trait VSetIter<T> {
    spec fn vs(&self) -> Set<T>;
    fn v_iter<'a>(&'a self) -> (r: SeqIter<&'a T>)
        ensures
            forall|k: int| 0 <= k < r@.len() ==> self.vs().contains(*(#[trigger] r@[k])),
            forall|x: T| #[trigger] self.vs().contains(x) ==> exists|k: int| 0 <= k < r@.len() && *r@[k] == x,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]) != *(#[trigger] r@[j]),
            r@.len() == self.vs().len();
    fn v_into_iter<'a>(&'a self) -> (r: SeqIter<&'a T>)
        ensures
            forall|k: int| 0 <= k < r@.len() ==> self.vs().contains(*(#[trigger] r@[k])),
            forall|x: T| #[trigger] self.vs().contains(x) ==> exists|k: int| 0 <= k < r@.len() && *r@[k] == x,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]) != *(#[trigger] r@[j]),
            r@.len() == self.vs().len();
}
impl VSetIter<u32> for HashSet<u32> {
    open spec fn vs(&self) -> Set<u32> { self@ }
    fn v_iter<'a>(&'a self) -> SeqIter<&'a u32> { of(items(self)) }
    fn v_into_iter<'a>(&'a self) -> SeqIter<&'a u32> { of(items(self)) }
}
// an item by value, owned or borrowed
pub trait VVal { spec fn val(self) -> u32; fn v_val(self) -> (r: u32) ensures r == self.val(); }
impl VVal for u32 { open spec fn val(self) -> u32 { self } fn v_val(self) -> u32 { self } }
impl<'a> VVal for &'a u32 { open spec fn val(self) -> u32 { *self } fn v_val(self) -> u32 { *self } }
pub trait VSetDrain { spec fn vd(&self) -> Set<u32>;
    fn v_drain(&mut self) -> (r: SeqIter<u32>)
        ensures final(self).vd() == Set::<u32>::empty(), r@.len() == old(self).vd().len(), r@.no_duplicates(),
            forall|x: u32| #[trigger] r@.contains(x) <==> old(self).vd().contains(x);
}
impl VSetDrain for HashSet<u32> { open spec fn vd(&self) -> Set<u32> { self@ }
    fn v_drain(&mut self) -> SeqIter<u32> {
        let ghost __s = self@;
        let r = of(items(self)).v_copied();
        self.clear();
        assert forall|x: u32| #[trigger] r@.contains(x) <==> __s.contains(x) by { };
        r
    }
}
}
pub use seqit::*;
pub trait VMinMax: Sized { spec fn le(self, o: Self) -> bool;
    fn v_min(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { self } else { o });
    fn v_max(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { o } else { self });
}
impl VMinMax for u8 { open spec fn le(self, o: u8) -> bool { self <= o } fn v_min(self, o: u8) -> u8 { if self <= o { self } else { o } } fn v_max(self, o: u8) -> u8 { if self <= o { o } else { self } } }
impl VMinMax for u32 { open spec fn le(self, o: u32) -> bool { self <= o } fn v_min(self, o: u32) -> u32 { if self <= o { self } else { o } } fn v_max(self, o: u32) -> u32 { if self <= o { o } else { self } } }
impl VMinMax for u64 { open spec fn le(self, o: u64) -> bool { self <= o } fn v_min(self, o: u64) -> u64 { if self <= o { self } else { o } } fn v_max(self, o: u64) -> u64 { if self <= o { o } else { self } } }
impl VMinMax for usize { open spec fn le(self, o: usize) -> bool { self <= o } fn v_min(self, o: usize) -> usize { if self <= o { self } else { o } } fn v_max(self, o: usize) -> usize { if self <= o { o } else { self } } }

pub trait VDivCeil: Sized { spec fn dc(self) -> int;
    fn v_div_ceil(self, o: Self) -> (r: Self) requires o.dc() > 0, self.dc() >= 0 ensures r.dc() == (self.dc() + o.dc() - 1) / o.dc();
}
impl VDivCeil for u32 { open spec fn dc(self) -> int { self as int } fn v_div_ceil(self, o: u32) -> u32 {
    let (q, m) = (self / o, self % o);
    proof {
        let (a, b) = (self as int, o as int);
        assert(a == b * (a / b) + a % b && 0 <= a % b < b) by (nonlinear_arith) requires b > 0, a >= 0;
        if m == 0 { assert((a + b - 1) / b == a / b) by (nonlinear_arith) requires b > 0, a == b * (a / b); }
        else { assert((a + b - 1) / b == a / b + 1) by (nonlinear_arith) requires b > 0, a == b * (a / b) + a % b, 0 < a % b < b; if b == 1 { } else { assert(a / b < a) by (nonlinear_arith) requires b >= 2, a > 0; } }
    }
    if m > 0 { q + 1 } else { q }
} }
impl VDivCeil for u64 { open spec fn dc(self) -> int { self as int } fn v_div_ceil(self, o: u64) -> u64 {
    let (q, m) = (self / o, self % o);
    proof {
        let (a, b) = (self as int, o as int);
        assert(a == b * (a / b) + a % b && 0 <= a % b < b) by (nonlinear_arith) requires b > 0, a >= 0;
        if m == 0 { assert((a + b - 1) / b == a / b) by (nonlinear_arith) requires b > 0, a == b * (a / b); }
        else { assert((a + b - 1) / b == a / b + 1) by (nonlinear_arith) requires b > 0, a == b * (a / b) + a % b, 0 < a % b < b; if b == 1 { } else { assert(a / b < a) by (nonlinear_arith) requires b >= 2, a > 0; } }
    }
    if m > 0 { q + 1 } else { q }
} }
impl VDivCeil for usize { open spec fn dc(self) -> int { self as int } fn v_div_ceil(self, o: usize) -> usize {
    let (q, m) = (self / o, self % o);
    proof {
        let (a, b) = (self as int, o as int);
        assert(a == b * (a / b) + a % b && 0 <= a % b < b) by (nonlinear_arith) requires b > 0, a >= 0;
        if m == 0 { assert((a + b - 1) / b == a / b) by (nonlinear_arith) requires b > 0, a == b * (a / b); }
        else { assert((a + b - 1) / b == a / b + 1) by (nonlinear_arith) requires b > 0, a == b * (a / b) + a % b, 0 < a % b < b; if b == 1 { } else { assert(a / b < a) by (nonlinear_arith) requires b >= 2, a > 0; } }
    }
    if m > 0 { q + 1 } else { q }
} }

// slice::binary_search_by: the text of the library's own function, taken from
// the toolchain's source on every run, is verified against this contract
pub mod stdbs {
use super::*;
// what the library's search computes from the orderings the comparator reports
closed spec fn bs_from(o: Seq<Ordering>, base: int, size: int) -> Result<usize, usize> decreases size {
    if size > 1 { let half = size / 2; bs_from(o, if o[base + half] == Ordering::Greater { base } else { base + half }, size - half) }
    else if o[base] == Ordering::Equal { Ok(base as usize) }
    else { Err((base + if o[base] == Ordering::Less { 1int } else { 0 }) as usize) }
}
pub closed spec fn bs_res(o: Seq<Ordering>) -> Result<usize, usize> { if o.len() == 0 { Err(0) } else { bs_from(o, 0, o.len() as int) } }
pub open spec fn bs_ok(o: Seq<Ordering>, r: Result<usize, usize>) -> bool {
    match r {
        Ok(i) => i < o.len() && o[i as int] == Ordering::Equal,
        Err(i) => i <= o.len() && (i > 0 ==> o[i - 1] == Ordering::Less) && (i < o.len() ==> o[i as int] == Ordering::Greater),
    }
}
// its neighbours are on the right side, whether or not o is sorted
proof fn lemma_bs_from(o: Seq<Ordering>, base: int, size: int)
    requires 0 <= base, 1 <= size, base + size <= o.len() <= usize::MAX, base > 0 ==> o[base] != Ordering::Greater,
        base + size == o.len() || o[base + size] == Ordering::Greater || (size > 1 && o[base + size - 1] == Ordering::Greater)
    ensures bs_ok(o, bs_from(o, base, size))
    decreases size
{
    if size > 1 { let half = size / 2; lemma_bs_from(o, if o[base + half] == Ordering::Greater { base } else { base + half }, size - half); }
}
pub proof fn lemma_bs(o: Seq<Ordering>) requires o.len() <= usize::MAX ensures bs_ok(o, bs_res(o)) { if o.len() > 0 { lemma_bs_from(o, 0, o.len() as int); } }
// the comparator's answers are those of o
pub open spec fn det<T, F: Fn(&T) -> Ordering>(f: F, s: Seq<T>, o: Seq<Ordering>) -> bool {
    o.len() == s.len() && forall|k: int, c: Ordering| 0 <= k < s.len() && #[trigger] f.ensures((&s[k],), c) ==> c == o[k]
}
pub trait VSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn v_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>)
        requires forall|k: int| 0 <= k < self.sv().len() ==> #[trigger] f.requires((&self.sv()[k],))
        ensures forall|o: Seq<Ordering>| det(f, self.sv(), o) ==> r == #[trigger] bs_res(o);
}
proof fn lemma_one(a: Ordering) ensures a == Ordering::Less || a == Ordering::Equal || a == Ordering::Greater {}
impl VSlice<F64> for [F64] {
    open spec fn sv(&self) -> Seq<F64> { self@ }
/*@stdattr*/    fn v_binary_search_by<F: Fn(&F64) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>)
    {
        use std::cmp::Ordering::*;
        proof { assert(self.sv() == self@); }
/*@std slice/mod.rs binary_search_by
            invariant 1 <= size, base + size <= self@.len(), self.sv() == self@,
                forall|k: int| 0 <= k < self@.len() ==> f.requires((&#[trigger] self@[k],)),
                forall|o: Seq<Ordering>| det(f, self@, o) ==> #[trigger] bs_res(o) == bs_from(o, base as int, size as int)
            decreases size
@std*/
    }
}
}
pub use stdbs::*;

// ===================================================================
// TRUSTED: hashing is deterministic - the hash of a value is a function
// of the builder and the value.
// ===================================================================
pub trait Hasher { spec fn fin(&self) -> u64; fn finish(&self) -> (r: u64) ensures r == self.fin(); }
pub trait Hash {
    spec fn absorb<S: Hasher>(&self, s: S) -> S;
    fn hash<S: Hasher>(&self, s: &mut S) ensures *final(s) == self.absorb(*old(s));
}
pub trait BuildHasher { type Hasher: Hasher; spec fn init(&self) -> Self::Hasher; fn build_hasher(&self) -> (r: Self::Hasher) ensures r == self.init();
    fn hash_one<R: Hash + ?Sized>(&self, x: &R) -> (r: u64) ensures r == x.absorb(self.init()).fin() { let mut h = self.build_hasher(); x.hash(&mut h); h.finish() }
}
pub trait Borrow<Q: ?Sized> { }
pub open spec fn hash_of<B: BuildHasher, R: Hash + ?Sized>(b: B, r: &R) -> u64 { r.absorb(b.init()).fin() }

// ===================================================================
// EXTRACTED from /repo
// ===================================================================

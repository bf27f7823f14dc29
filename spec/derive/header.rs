#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]
// Generated by hllx from the code the derive macros of /repo's current
// source expand to; do not edit.
use vstd::prelude::*;
use std::collections::HashSet;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
pub trait Hash { }
pub trait BuildHasher { }

// ===================================================================
// serde's data model.  String literals are numbered by hllx: equal
// strings have equal numbers, different strings different ones.
// ===================================================================
pub enum Tree {
    Num(int),
    Unit,
    Absent,                                  // Option::None
    Present(Box<Tree>),                      // Option::Some
    Items(Seq<Tree>),                        // sequences and tuples
    Members(Set<u32>),                       // a set of numbers, in some order
    Newtype(u32, Box<Tree>),                 // name, content
    Struct(u32, Seq<(u32, Tree)>),           // name, named fields
    Name(u32),                               // a field's name
    Index(u64, Seq<(u32, Tree)>),            // a field's number within these
    Any,
}
pub open spec fn fields_of(t: Tree) -> Seq<(u32, Tree)> { t->Struct_1 }
pub open spec fn names_of(t: Tree) -> Seq<u32> { fields_of(t).map_values(|f: (u32, Tree)| f.0) }
// the values of a struct written without names
pub open spec fn values_of(t: Tree) -> Seq<Tree> {
    match t { Tree::Struct(_, f) => f.map_values(|f: (u32, Tree)| f.1), Tree::Newtype(_, b) => seq![*b], Tree::Items(s) => s, _ => Seq::empty() }
}

// ------------------------------------------------------------ writing
// TRUSTED: what serde's documentation demands of a format.  `wrote(ok, t)`
// says that finishing with `ok` has written exactly t.
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    spec fn wrote(self, ok: Self::Ok, t: Tree) -> bool;
}
pub trait SerializeStruct: Sized {
    type Ok;
    type Error;
    spec fn wrote(self, ok: Self::Ok, t: Tree) -> bool;
    spec fn name(self) -> u32;
    spec fn len(self) -> usize;
    spec fn done(self) -> Seq<(u32, Tree)>;
}
pub trait Serialize {
    spec fn tree(&self) -> Tree;
    fn serialize<__S: Serializer>(&self, __serializer: __S) -> (ret: Result<__S::Ok, __S::Error>)
        ensures ret is Ok ==> __serializer.wrote(ret->Ok_0, self.tree());
}
#[verifier::external_body]
pub fn v_serialize_struct<S: Serializer>(s: S, name: u32, len: usize) -> (r: Result<S::SerializeStruct, S::Error>)
    ensures r is Ok ==> {
        let st = r->Ok_0;
        &&& st.name() == name && st.len() == len && st.done() == Seq::<(u32, Tree)>::empty()
        &&& forall|ok: S::Ok, t: Tree| #[trigger] st.wrote(ok, t) ==> s.wrote(ok, t)
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_serialize_newtype_struct<S: Serializer, T: Serialize + ?Sized>(s: S, name: u32, value: &T) -> (r: Result<S::Ok, S::Error>)
    ensures r is Ok ==> s.wrote(r->Ok_0, Tree::Newtype(name, Box::new(value.tree())))
{ unimplemented!() }
#[verifier::external_body]
pub fn v_serialize_field<C: SerializeStruct, T: Serialize + ?Sized>(st: &mut C, key: u32, value: &T) -> (r: Result<(), C::Error>)
    requires old(st).done().len() < old(st).len()
    ensures r is Ok ==> {
        &&& final(st).name() == old(st).name() && final(st).len() == old(st).len()
        &&& final(st).done() == old(st).done().push((key, value.tree()))
        &&& forall|ok: C::Ok, t: Tree| #[trigger] final(st).wrote(ok, t) ==> old(st).wrote(ok, t)
    }
{ unimplemented!() }
// as many fields as were announced
#[verifier::external_body]
pub fn v_end<C: SerializeStruct>(st: C) -> (r: Result<C::Ok, C::Error>)
    requires st.done().len() == st.len()
    ensures r is Ok ==> st.wrote(r->Ok_0, Tree::Struct(st.name(), st.done()))
{ unimplemented!() }

// ------------------------------------------------------------ reading
// TRUSTED: a format hands the visitor what the input holds, fields with
// their names in any order, or all of them in order without names.
pub trait Deserializer: Sized {
    type Error;
    spec fn tree(self) -> Tree;
}
pub trait SeqAccess: Sized {
    type Error;
    spec fn tree(self) -> Tree;
    spec fn rest(self) -> Seq<Tree>;
}
pub trait MapAccess: Sized {
    type Error;
    spec fn tree(self) -> Tree;
    // the positions of the fields still to come
    spec fn order(self) -> Seq<int>;
    // the value whose key was read last
    spec fn value(self) -> Option<Tree>;
}
pub open spec fn each_once(o: Seq<int>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] o.contains(i)
    &&& forall|k: int| 0 <= k < o.len() ==> 0 <= #[trigger] o[k] < n
    &&& forall|j: int, k: int| 0 <= j < k < o.len() ==> #[trigger] o[j] != #[trigger] o[k]
}
pub trait StructVisitor: Sized {
    type Value;
    spec fn accepts(self, t: Tree) -> bool;
    spec fn built(self, t: Tree, v: Self::Value) -> bool;
    fn visit_seq<__A: SeqAccess>(self, __seq: __A) -> (ret: Result<Self::Value, __A::Error>)
        requires __seq.tree() is Struct, self.accepts(__seq.tree()), __seq.rest() == values_of(__seq.tree())
        ensures ret is Ok ==> self.built(__seq.tree(), ret->Ok_0);
    fn visit_map<__A: MapAccess>(self, __map: __A) -> (ret: Result<Self::Value, __A::Error>)
        requires __map.tree() is Struct, self.accepts(__map.tree()), __map.value() is None, each_once(__map.order(), fields_of(__map.tree()).len() as int)
        ensures ret is Ok ==> self.built(__map.tree(), ret->Ok_0);
}
pub open spec fn newtype_of(n: u32, t: Tree) -> Tree { Tree::Newtype(n, Box::new(t)) }
pub open spec fn index_of(i: u64, f: Seq<(u32, Tree)>) -> Tree { Tree::Index(i, f) }
pub trait NewtypeVisitor: Sized {
    type Value;
    spec fn accepts(self, t: Tree) -> bool;
    spec fn built(self, t: Tree, v: Self::Value) -> bool;
    fn visit_newtype_struct<__E: Deserializer>(self, __e: __E) -> (ret: Result<Self::Value, __E::Error>)
        requires exists|n: u32| self.accepts(#[trigger] newtype_of(n, __e.tree()))
        ensures ret is Ok ==> forall|n: u32| self.accepts(#[trigger] newtype_of(n, __e.tree())) ==> self.built(newtype_of(n, __e.tree()), ret->Ok_0);
    fn visit_seq<__A: SeqAccess>(self, __seq: __A) -> (ret: Result<Self::Value, __A::Error>)
        requires __seq.tree() is Newtype, self.accepts(__seq.tree()), __seq.rest() == values_of(__seq.tree())
        ensures ret is Ok ==> self.built(__seq.tree(), ret->Ok_0);
}
pub trait FieldVisitor: Sized {
    type Value;
    spec fn built(self, t: Tree, v: Self::Value) -> bool;
    fn visit_u64<__E>(self, __value: u64) -> (ret: Result<Self::Value, __E>)
        ensures ret is Ok, forall|f: Seq<(u32, Tree)>| __value < f.len() ==> self.built(#[trigger] index_of(__value, f), ret->Ok_0);
    fn visit_str<__E>(self, __value: u32) -> (ret: Result<Self::Value, __E>)
        ensures ret is Ok, self.built(Tree::Name(__value), ret->Ok_0);
    fn visit_bytes<__E>(self, __value: u32) -> (ret: Result<Self::Value, __E>)
        ensures ret is Ok, self.built(Tree::Name(__value), ret->Ok_0);
}
pub trait Deserialize: Sized {
    // t can be read as a value of this type, and v is that value
    spec fn reads(t: Tree) -> bool;
    spec fn is(t: Tree, v: Self) -> bool;
    fn deserialize<__D: Deserializer>(__deserializer: __D) -> (ret: Result<Self, __D::Error>)
        requires Self::reads(__deserializer.tree())
        ensures ret is Ok ==> Self::is(__deserializer.tree(), ret->Ok_0);
}
#[verifier::external_body]
pub fn v_deserialize_struct<D: Deserializer, V: StructVisitor, const N: usize>(d: D, name: u32, fields: &[u32; N], visitor: V) -> (r: Result<V::Value, D::Error>)
    requires d.tree() is Struct, d.tree()->Struct_0 == name, fields@ =~= names_of(d.tree()), visitor.accepts(d.tree())
    ensures r is Ok ==> visitor.built(d.tree(), r->Ok_0)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_deserialize_newtype_struct<D: Deserializer, V: NewtypeVisitor>(d: D, name: u32, visitor: V) -> (r: Result<V::Value, D::Error>)
    requires d.tree() is Newtype, d.tree()->Newtype_0 == name, visitor.accepts(d.tree())
    ensures r is Ok ==> visitor.built(d.tree(), r->Ok_0)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_deserialize_identifier<D: Deserializer, V: FieldVisitor>(d: D, visitor: V) -> (r: Result<V::Value, D::Error>)
    requires d.tree() is Name || d.tree() is Index && d.tree()->Index_0 < d.tree()->Index_1.len()
    ensures r is Ok ==> visitor.built(d.tree(), r->Ok_0)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_next_element<T: Deserialize, A: SeqAccess>(a: &mut A) -> (r: Result<Option<T>, A::Error>)
    requires old(a).rest().len() > 0 ==> T::reads(old(a).rest()[0])
    ensures r is Ok ==> {
        &&& final(a).tree() == old(a).tree()
        &&& r->Ok_0 is Some == (old(a).rest().len() > 0)
        &&& r->Ok_0 is Some ==> T::is(old(a).rest()[0], r->Ok_0->Some_0) && final(a).rest() == old(a).rest().drop_first()
        &&& r->Ok_0 is None ==> final(a).rest() == old(a).rest()
    }
{ unimplemented!() }
pub open spec fn key_is<K: Deserialize>(f: Seq<(u32, Tree)>, i: int, k: K) -> bool { K::is(Tree::Name(f[i].0), k) || K::is(index_of(i as u64, f), k) }
#[verifier::external_body]
pub fn v_next_key<K: Deserialize, A: MapAccess>(a: &mut A) -> (r: Result<Option<K>, A::Error>)
    requires old(a).value() is None, old(a).order().len() > 0 ==> K::reads(Tree::Name(fields_of(old(a).tree())[old(a).order()[0]].0)) && K::reads(Tree::Index(old(a).order()[0] as u64, fields_of(old(a).tree())))
    ensures r is Ok ==> {
        &&& final(a).tree() == old(a).tree()
        &&& r->Ok_0 is Some == (old(a).order().len() > 0)
        &&& r->Ok_0 is Some ==> {
            let i = old(a).order()[0];
            &&& key_is(fields_of(old(a).tree()), i, r->Ok_0->Some_0)
            &&& final(a).order() == old(a).order().drop_first()
            &&& final(a).value() == Some(fields_of(old(a).tree())[i].1)
        }
        &&& r->Ok_0 is None ==> final(a).order() == old(a).order() && final(a).value() is None
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_next_value<T: Deserialize, A: MapAccess>(a: &mut A) -> (r: Result<T, A::Error>)
    requires old(a).value() is Some, T::reads(old(a).value()->Some_0)
    ensures r is Ok ==> {
        &&& T::is(old(a).value()->Some_0, r->Ok_0)
        &&& final(a).tree() == old(a).tree() && final(a).order() == old(a).order() && final(a).value() is None
    }
{ unimplemented!() }
// the errors the derived code itself reports: reading back what was
// written never reports one
#[verifier::external_body]
pub fn v_error<E>() -> (r: E) requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_missing<T, E>() -> (r: Result<T, E>) requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_default<T>() -> (r: T) { unimplemented!() }
pub struct IgnoredAny;
impl Deserialize for IgnoredAny {
    open spec fn reads(t: Tree) -> bool { true }
    open spec fn is(t: Tree, v: Self) -> bool { true }
    #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() }
}

// the same contents
pub trait Same: Sized { spec fn same(&self, o: &Self) -> bool; }
pub open spec fn distinct(o: Seq<int>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < o.len() ==> 0 <= #[trigger] o[k] < n
    &&& forall|j: int, k: int| 0 <= j < k < o.len() ==> #[trigger] o[j] != #[trigger] o[k]
}
pub proof fn lemma_each(o: Seq<int>, n: int) requires each_once(o, n) ensures distinct(o, n), forall|i: int| 0 <= i < n ==> #[trigger] o.contains(i) { }
pub proof fn lemma_pop(o: Seq<int>, n: int)
    requires distinct(o, n), o.len() > 0
    ensures distinct(o.drop_first(), n), !o.drop_first().contains(o[0]), o.contains(o[0]), forall|i: int| i != o[0] ==> #[trigger] o.drop_first().contains(i) == o.contains(i)
{
    let d = o.drop_first();
    assert forall|i: int| i != o[0] implies #[trigger] d.contains(i) == o.contains(i) by {
        if o.contains(i) { let k = choose|k: int| 0 <= k < o.len() && o[k] == i; assert(d[k - 1] == i); }
        if d.contains(i) { let k = choose|k: int| 0 <= k < d.len() && d[k] == i; assert(o[k + 1] == i); }
    }
}

// ===================================================================
// TRUSTED: serde's own implementations for the standard types
// ===================================================================
impl Serialize for u8 { open spec fn tree(&self) -> Tree { Tree::Num(*self as int) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl Deserialize for u8 { open spec fn reads(t: Tree) -> bool { t is Num && u8::MIN <= t->Num_0 <= u8::MAX } open spec fn is(t: Tree, v: Self) -> bool { t == Tree::Num(v as int) } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl Same for u8 { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
impl VClone for u8 { fn v_clone(&self) -> (ret: Self) { *self } }
impl Serialize for u16 { open spec fn tree(&self) -> Tree { Tree::Num(*self as int) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl Deserialize for u16 { open spec fn reads(t: Tree) -> bool { t is Num && u16::MIN <= t->Num_0 <= u16::MAX } open spec fn is(t: Tree, v: Self) -> bool { t == Tree::Num(v as int) } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl Same for u16 { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
impl VClone for u16 { fn v_clone(&self) -> (ret: Self) { *self } }
impl Serialize for u32 { open spec fn tree(&self) -> Tree { Tree::Num(*self as int) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl Deserialize for u32 { open spec fn reads(t: Tree) -> bool { t is Num && u32::MIN <= t->Num_0 <= u32::MAX } open spec fn is(t: Tree, v: Self) -> bool { t == Tree::Num(v as int) } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl Same for u32 { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
impl VClone for u32 { fn v_clone(&self) -> (ret: Self) { *self } }
impl Serialize for u64 { open spec fn tree(&self) -> Tree { Tree::Num(*self as int) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl Deserialize for u64 { open spec fn reads(t: Tree) -> bool { t is Num && u64::MIN <= t->Num_0 <= u64::MAX } open spec fn is(t: Tree, v: Self) -> bool { t == Tree::Num(v as int) } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl Same for u64 { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
impl VClone for u64 { fn v_clone(&self) -> (ret: Self) { *self } }
impl Serialize for usize { open spec fn tree(&self) -> Tree { Tree::Num(*self as int) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl Deserialize for usize { open spec fn reads(t: Tree) -> bool { t is Num && usize::MIN <= t->Num_0 <= usize::MAX } open spec fn is(t: Tree, v: Self) -> bool { t == Tree::Num(v as int) } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl Same for usize { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
impl VClone for usize { fn v_clone(&self) -> (ret: Self) { *self } }
impl<T: Serialize> Serialize for Vec<T> { open spec fn tree(&self) -> Tree { Tree::Items(self@.map_values(|x: T| x.tree())) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl<T: Deserialize> Deserialize for Vec<T> {
    open spec fn reads(t: Tree) -> bool { t is Items && forall|k: int| 0 <= k < t->Items_0.len() ==> T::reads(#[trigger] t->Items_0[k]) }
    open spec fn is(t: Tree, v: Self) -> bool { t is Items && t->Items_0.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> T::is(t->Items_0[k], #[trigger] v@[k]) }
    #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl<T: Same> Same for Vec<T> { open spec fn same(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|k: int| 0 <= k < self@.len() ==> #[trigger] self@[k].same(&o@[k]) } }
impl<T: VClone> VClone for Vec<T> { 
    fn v_clone(&self) -> (ret: Self) {
        let mut r = Vec::new(); let mut i = 0;
        while i < self.len() invariant 0 <= i <= self@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] self@[k].same(&r@[k]) decreases self@.len() - i
        { let ghost __r = r@; let x = self[i].v_clone(); r.push(x); proof { assert(forall|k: int| 0 <= k < i ==> r@[k] == __r[k]); } i += 1; }
        r
    } }
impl<T: Serialize> Serialize for Option<T> { open spec fn tree(&self) -> Tree { match *self { Some(x) => Tree::Present(Box::new(x.tree())), None => Tree::Absent } } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl<T: Deserialize> Deserialize for Option<T> {
    open spec fn reads(t: Tree) -> bool { t is Absent || t is Present && T::reads(*t->Present_0) }
    open spec fn is(t: Tree, v: Self) -> bool { match v { Some(x) => t is Present && T::is(*t->Present_0, x), None => t is Absent } }
    #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl<T: Same> Same for Option<T> { open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } } }
impl<T: VClone> VClone for Option<T> { fn v_clone(&self) -> (ret: Self) { match self { Some(a) => Some(a.v_clone()), None => None } } }
impl<T: ?Sized> Serialize for PhantomData<T> { open spec fn tree(&self) -> Tree { Tree::Unit } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl<T: ?Sized> Deserialize for PhantomData<T> { open spec fn reads(t: Tree) -> bool { t is Unit } open spec fn is(t: Tree, v: Self) -> bool { true } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl<T: ?Sized> Same for PhantomData<T> { open spec fn same(&self, o: &Self) -> bool { true } }
impl<T: ?Sized> VClone for PhantomData<T> { fn v_clone(&self) -> (ret: Self) { PhantomData } }
impl Serialize for HashSet<u32> { open spec fn tree(&self) -> Tree { Tree::Members(self@) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl Deserialize for HashSet<u32> { open spec fn reads(t: Tree) -> bool { t is Members } open spec fn is(t: Tree, v: Self) -> bool { t == Tree::Members(v@) } #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl Same for HashSet<u32> { open spec fn same(&self, o: &Self) -> bool { self@ == o@ } }
impl VClone for HashSet<u32> { #[verifier::external_body] fn v_clone(&self) -> (ret: Self) { unimplemented!() } }
impl<T0: Serialize, T1: Serialize> Serialize for (T0, T1) { open spec fn tree(&self) -> Tree { Tree::Items(seq![self.0.tree(), self.1.tree()]) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl<T0: Deserialize, T1: Deserialize> Deserialize for (T0, T1) {
    open spec fn reads(t: Tree) -> bool { t is Items && t->Items_0.len() == 2  && T0::reads(t->Items_0[0]) && T1::reads(t->Items_0[1]) }
    open spec fn is(t: Tree, v: Self) -> bool { t is Items && t->Items_0.len() == 2  && T0::is(t->Items_0[0], v.0) && T1::is(t->Items_0[1], v.1) }
    #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl<T0: Same, T1: Same> Same for (T0, T1) { open spec fn same(&self, o: &Self) -> bool { true  && self.0.same(&o.0) && self.1.same(&o.1) } }
impl<T0: VClone, T1: VClone> VClone for (T0, T1) { fn v_clone(&self) -> (ret: Self) { (self.0.v_clone(), self.1.v_clone()) } }
impl<T0: Serialize, T1: Serialize, T2: Serialize> Serialize for (T0, T1, T2) { open spec fn tree(&self) -> Tree { Tree::Items(seq![self.0.tree(), self.1.tree(), self.2.tree()]) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl<T0: Deserialize, T1: Deserialize, T2: Deserialize> Deserialize for (T0, T1, T2) {
    open spec fn reads(t: Tree) -> bool { t is Items && t->Items_0.len() == 3  && T0::reads(t->Items_0[0]) && T1::reads(t->Items_0[1]) && T2::reads(t->Items_0[2]) }
    open spec fn is(t: Tree, v: Self) -> bool { t is Items && t->Items_0.len() == 3  && T0::is(t->Items_0[0], v.0) && T1::is(t->Items_0[1], v.1) && T2::is(t->Items_0[2], v.2) }
    #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl<T0: Same, T1: Same, T2: Same> Same for (T0, T1, T2) { open spec fn same(&self, o: &Self) -> bool { true  && self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) } }
impl<T0: VClone, T1: VClone, T2: VClone> VClone for (T0, T1, T2) { fn v_clone(&self) -> (ret: Self) { (self.0.v_clone(), self.1.v_clone(), self.2.v_clone()) } }
impl<T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize> Serialize for (T0, T1, T2, T3) { open spec fn tree(&self) -> Tree { Tree::Items(seq![self.0.tree(), self.1.tree(), self.2.tree(), self.3.tree()]) } #[verifier::external_body] fn serialize<__S: Serializer>(&self, s: __S) -> (ret: Result<__S::Ok, __S::Error>) { unimplemented!() } }
impl<T0: Deserialize, T1: Deserialize, T2: Deserialize, T3: Deserialize> Deserialize for (T0, T1, T2, T3) {
    open spec fn reads(t: Tree) -> bool { t is Items && t->Items_0.len() == 4  && T0::reads(t->Items_0[0]) && T1::reads(t->Items_0[1]) && T2::reads(t->Items_0[2]) && T3::reads(t->Items_0[3]) }
    open spec fn is(t: Tree, v: Self) -> bool { t is Items && t->Items_0.len() == 4  && T0::is(t->Items_0[0], v.0) && T1::is(t->Items_0[1], v.1) && T2::is(t->Items_0[2], v.2) && T3::is(t->Items_0[3], v.3) }
    #[verifier::external_body] fn deserialize<__D: Deserializer>(d: __D) -> (ret: Result<Self, __D::Error>) { unimplemented!() } }
impl<T0: Same, T1: Same, T2: Same, T3: Same> Same for (T0, T1, T2, T3) { open spec fn same(&self, o: &Self) -> bool { true  && self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) } }
impl<T0: VClone, T1: VClone, T2: VClone, T3: VClone> VClone for (T0, T1, T2, T3) { fn v_clone(&self) -> (ret: Self) { (self.0.v_clone(), self.1.v_clone(), self.2.v_clone(), self.3.v_clone()) } }

// a clone has the same contents
pub trait VClone: Same {
    fn v_clone(&self) -> (ret: Self) ensures self.same(&ret);
}
// what is written can be read, and reading it gives the same contents
pub trait RoundTrip: Same + Serialize + Deserialize {
    proof fn round_trip(&self, y: &Self)
        ensures Self::reads(self.tree()), Self::is(self.tree(), *y) ==> self.same(y);
}


impl RoundTrip for u8 { proof fn round_trip(&self, y: &Self) { } }
impl RoundTrip for u16 { proof fn round_trip(&self, y: &Self) { } }
impl RoundTrip for u32 { proof fn round_trip(&self, y: &Self) { } }
impl RoundTrip for u64 { proof fn round_trip(&self, y: &Self) { } }
impl RoundTrip for usize { proof fn round_trip(&self, y: &Self) { } }
impl<T: RoundTrip> RoundTrip for Vec<T> {
    proof fn round_trip(&self, y: &Self) {
        let t = self.tree();
        assert forall|k: int| 0 <= k < t->Items_0.len() implies T::reads(#[trigger] t->Items_0[k]) by { self@[k].round_trip(&self@[k]); }
        if Self::is(t, *y) {
            assert forall|k: int| 0 <= k < self@.len() implies #[trigger] self@[k].same(&y@[k]) by { self@[k].round_trip(&y@[k]); assert(T::is(t->Items_0[k], y@[k])); }
        }
    }
}
impl<T: RoundTrip> RoundTrip for Option<T> {
    proof fn round_trip(&self, y: &Self) {
        if let Some(a) = *self { a.round_trip(&a); if let Some(b) = *y { a.round_trip(&b); } }
    }
}
impl<T: ?Sized> RoundTrip for PhantomData<T> { proof fn round_trip(&self, y: &Self) { } }
impl RoundTrip for HashSet<u32> { proof fn round_trip(&self, y: &Self) { } }
impl<T0: RoundTrip, T1: RoundTrip> RoundTrip for (T0, T1) { proof fn round_trip(&self, y: &Self) { self.0.round_trip(&y.0); self.1.round_trip(&y.1); } }
impl<T0: RoundTrip, T1: RoundTrip, T2: RoundTrip> RoundTrip for (T0, T1, T2) { proof fn round_trip(&self, y: &Self) { self.0.round_trip(&y.0); self.1.round_trip(&y.1); self.2.round_trip(&y.2); } }
impl<T0: RoundTrip, T1: RoundTrip, T2: RoundTrip, T3: RoundTrip> RoundTrip for (T0, T1, T2, T3) { proof fn round_trip(&self, y: &Self) { self.0.round_trip(&y.0); self.1.round_trip(&y.1); self.2.round_trip(&y.2); self.3.round_trip(&y.3); } }
// ===================================================================
// EXTRACTED from /repo
// ===================================================================

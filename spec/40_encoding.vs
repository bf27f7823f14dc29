@fn VarIntVec::new
    ensures ret.bytes() == Seq::<u8>::empty(), ret.wf(), ret@ == Seq::<u32>::empty()
@at exit
    proof { assert(dec_all(Seq::empty()) =~= Seq::<u32>::empty()); assert(enc_all(Seq::empty()) =~= Seq::<u8>::empty()); }
@fn VarIntVec::with_capacity
    ensures ret.bytes() == Seq::<u8>::empty(), ret.wf(), ret@ == Seq::<u32>::empty()
@at exit
    proof { assert(dec_all(Seq::empty()) =~= Seq::<u32>::empty()); assert(enc_all(Seq::empty()) =~= Seq::<u8>::empty()); }
@fn VarIntVec::push
    ensures final(self).bytes() == old(self).bytes() + vint(val as int),
        old(self).wf() ==> final(self).wf() && final(self)@ == old(self)@.push(val)
@at start
    let ghost __b0 = self.bytes(); let ghost __v0 = val;
    proof { lemma_enc_step(val); }
@loop 0
    invariant self.bytes() + vint(val as int) == __b0 + vint(__v0 as int), (val & 4294967168u32 != 0) == (val >= 128)
    decreases val
@at loop 0 start
    let ghost __bi = self.bytes(); let ghost __vi = val;
    proof { lemma_enc_step(val); }
@at loop 0 end
    proof {
        lemma_enc_step(val);
        assert(self.bytes() + vint(val as int) =~= __bi + vint(__vi as int));
    }
@at loop 0 after
    proof { lemma_enc_step(val); }
@at exit
    proof { assert(self.bytes() =~= __b0 + vint(__v0 as int)); lemma_var_push(__b0, __v0); }
@fn VarIntVec::decode
    requires
        index < self.bytes().len(),
        dec1(self.bytes().skip(index as int)).0 <= u32::MAX,
        dec1(self.bytes().skip(index as int)).1 <= 5,
        index + dec1(self.bytes().skip(index as int)).1 <= self.bytes().len(),
    ensures
        ret.0 == dec1(self.bytes().skip(index as int)).0,
        ret.1 == index + dec1(self.bytes().skip(index as int)).1,
@at start
    let ghost __d = dec1(self.bytes().skip(index as int));
    let ghost __l = self.0.len();
    proof { lemma_dec1_front(self.bytes(), index as int); }
@loop 0
    invariant
        i <= 4, val < pow128(i as int), index + i < self.bytes().len(), __l == self.bytes().len(),
        __d.0 == val + pow128(i as int) * dec1(self.bytes().skip(index + i)).0,
        __d.1 == i + dec1(self.bytes().skip(index + i)).1,
    decreases 5 - i
@at loop 0 start
    proof {
        lemma_dec1_front(self.bytes(), index + i);
        lemma_dec_top(val as int, self.bytes(), index + i, i as int, __d.0);
        lemma_dec_step(val, self.bytes()[index + i], i);
    }
@at loop 0 after
    proof {
        lemma_dec1_front(self.bytes(), index + i);
        lemma_dec_top(val as int, self.bytes(), index + i, i as int, __d.0);
        lemma_dec_step(val, self.bytes()[index + i], i);
    }
@fn DifIntVec::new
    ensures ret.wf(), ret@ == Seq::<u32>::empty(), ret.bytes().len() == 0
@at exit
    proof { lemma_dif_new(__r); }
@fn DifIntVec::with_capacity
    ensures ret.wf(), ret@ == Seq::<u32>::empty(), ret.bytes().len() == 0
@at exit
    proof { lemma_dif_new(__r); }
@fn DifIntVec::push
    requires old(self).wf(), val >= old(self).last, old(self).count < usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@.push(val)
@at start
    let ghost __old = *self;
@at exit
    proof { lemma_dif_push(__old, *self, val); }
@fn DifIntVec::count
    requires self.wf()
    ensures ret == self@.len()
@fn DifIntVec::len
    ensures ret == self.bytes().len()
@fn DifIntVec::clear
    ensures final(self).wf(), final(self)@ == Seq::<u32>::empty(), final(self).bytes().len() == 0
@at exit
    proof { lemma_dif_new(*self); }
@fn DifIntVec::into_iter
    requires self.wf()
    ensures ret.wf(), ret@ == self@
@at exit
    proof { assert(__r.inner.buf.0@.skip(0) =~= self.bytes()); }
@fn DifIntVecIntoIter::next
    requires old(self).wf()
    ensures final(self).wf(),
        old(self)@.len() == 0 ==> ret is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> ret == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
@at start
    proof { lemma_dif_front(*self); }
@fn VarIntVec::into_iter
    requires self.wf()
    ensures ret.wf(), ret@ == self@
@at exit
    proof { assert(__r.inner.0@.skip(0) =~= self.bytes()); }
@fn VarIntVecIntoIter::next
    requires old(self).wf()
    ensures final(self).wf(),
        old(self)@.len() == 0 ==> ret is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> ret == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
@at start
    proof { lemma_var_front(*self); }

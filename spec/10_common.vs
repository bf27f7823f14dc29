@alias RegistersPlus Registers
@fn ceil
    requires denom > 0, num + denom <= usize::MAX
    ensures ret == (num + denom - 1) / (denom as int)
@at start
    proof { lemma_ceil(num as int, denom as int); }
@fn Registers::with_count
    requires count <= 0x4_0000
    ensures ret.wf(), ret.count == count, ret.zeros == count,
        forall|i: int| 0 <= i < count ==> ret.regs()[i] == 0,
@at exit
    proof { Self::lemma_fresh(__r); }
@fn Registers::zeros
    ensures ret == self.zeros
@fn Registers::size_in_bytes
    requires count <= 0x4_0000
    ensures ret == (4 * count) / (Self::COUNT_PER_WORD as int)
@fn Registers::get
    requires self.wf(), index < self.count
    ensures ret == self.regs()[index as int]
@at start
    proof { Self::lemma_pos(self, index); }
@fn Registers::set_greater
    requires old(self).wf(), index < old(self).count, value <= Self::MASK
    ensures final(self).wf(), final(self).count == old(self).count,
        final(self).regs() == old(self).regs().update(index as int, if value > old(self).regs()[index as int] { value } else { old(self).regs()[index as int] }),
@at start
    let ghost __old = *self;
    proof { Self::lemma_pos(self, index); }
@at exit
    proof {
        Self::lemma_or(__old.buf@[index as int / Self::COUNT_PER_WORD as int], (index as int % Self::COUNT_PER_WORD as int) as usize, value);
        Self::lemma_mask(__old.buf@[index as int / Self::COUNT_PER_WORD as int], (index as int % Self::COUNT_PER_WORD as int) as usize, value);
        Self::lemma_zeros(__old.regs(), index as int, if value > __old.regs()[index as int] { value } else { __old.regs()[index as int] });
        Self::lemma_set(__old, *self, index, value);
    }
@fn Registers::iter
    requires self.wf()
    ensures ret@ == self.regs()
@closure 0 &u32
    -> (r: SeqIter<u32>)
        ensures r@.len() == Self::COUNT_PER_WORD, forall|k: int| 0 <= k < Self::COUNT_PER_WORD ==> #[trigger] r@[k] == Self::field(*$0, k)
@closure 1 usize
    -> (r: u32)
        requires $0 < Self::COUNT_PER_WORD
        ensures r == Self::field(val, $0 as int)
@at exit
    proof { Self::lemma_iter(self, __r); }
@variant get
@closure 0 usize
    -> (r: u32)
        requires $0 < self.count, self.wf()
        ensures r == self.regs()[$0 as int]
@at exit
    proof { assert(__r@ =~= self.regs()); }

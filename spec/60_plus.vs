@fn HyperLogLogPlus::new
    ensures
        (4 <= precision <= 18) == (ret is Ok),
        ret is Err ==> ret->Err_0 is InvalidPrecision,
        ret is Ok ==> ret->Ok_0.holds(Set::empty()) && ret->Ok_0.registers is None && ret->Ok_0.codes() == Set::<u32>::empty() && ret->Ok_0.precision == precision && ret->Ok_0.builder == builder,
        ret is Ok ==> ret->Ok_0.estimate() == f_lit(0),
@at start
    proof { lemma_pow2_all(precision); lemma_pow2_25(); lemma_empty_codes(); lemma_linear(0x200_0000, 0x200_0000); axiom_lit_int(); }
@fn HyperLogLogPlus::precision
    ensures ret == self.precision
@fn HyperLogLogPlus::is_sparse
    ensures ret == (self.registers is None)
@fn HyperLogLogPlus::registers_iter
    requires self.registers is Some ==> self.registers->Some_0.wf()
    ensures ret is Some == self.registers is Some, ret is Some ==> ret->Some_0@ == self.regs()
@fn HyperLogLogPlus::sparse_to_normal
    requires old(self).cfg_ok(), old(self).registers is None, old(self).sparse.wf(), incr(old(self).sparse@),
        forall|c: u32| #[trigger] seq_set(old(self).sparse@).contains(c) ==> code_ok(c, old(self).precision)
    ensures final(self).cfg_ok(), final(self).same(old(self)), final(self).registers is Some, final(self).dense_ok(),
        exists|z: Seq<u32>| zero_regs(z, old(self).precision) && #[trigger] absorbs(final(self).regs(), z, seq_set(old(self).sparse@), old(self).precision)
@at start
    let ghost __old = *self;
    proof { lemma_pow2(self.precision); }
@at let registers after
    let ghost __z = registers.regs();
    proof { lemma_absorb_none(__z, self.precision); lemma_empty_codes(); lemma_first_all(__old.sparse@); }
@loop 0
    invariant self.registers is None, self.same(&__old), $s == __old.sparse@, zero_regs(__z, self.precision),
        registers.wf(), registers.count == self.counts.0, below(registers.regs(), 65 - self.precision),
        absorbs(registers.regs(), __z, first(__old.sparse@, $n), self.precision)
@at loop 0 start
    proof {
        lemma_first_push(__old.sparse@, $n - 1);
        lemma_dec_bounds(__old.sparse@[$n - 1], self.precision);
        lemma_seq_set(__old.sparse@, __old.sparse@[$n - 1]);
        lemma_absorb(registers.regs(), __z, first(__old.sparse@, $n - 1), __old.sparse@[$n - 1], self.precision);
    }
@at loop 0 after
    let ghost __rr = registers;
@at exit
    proof { assert(self.regs() == __rr.regs()); assert(absorbs(self.regs(), __z, seq_set(__old.sparse@), __old.precision)); }
@fn HyperLogLogPlus::merge_sparse
@attr #[verifier::rlimit(60)]
    requires old(self).cfg_ok(), old(self).registers is None, old(self).sparse_ok()
    ensures final(self).merged(old(self))
@at start
    let ghost __old = *self;
    broadcast use lemma_merging;
    broadcast use lemma_merging_step;
@at let buf after
    proof { lemma_sorted_incr(set_codes@); lemma_merging_start(set_codes@, self.sparse@); }
@loop 0
    invariant
        self.registers is None, self.sparse == __old.sparse, self.same(&__old),
        buf.wf(), buf_iter.wf(),
        set_hash_option is None ==> set_iter@.len() == 0,
        buf_hash_option is None ==> buf_iter@.len() == 0,
        forall|x: u32| #[trigger] set_codes@.contains(x) <==> __old.tmpset@.contains(x),
        forall|k: int| 0 <= k < set_iter@.len() ==> *(#[trigger] set_iter@[k]) == set_codes@[set_codes@.len() - set_iter@.len() + k],
        forall|k: int| 0 <= k < buf_iter@.len() ==> (#[trigger] buf_iter@[k]) == self.sparse@[self.sparse@.len() - buf_iter@.len() + k],
        set_hash_option is Some ==> *set_hash_option->Some_0 == set_codes@[at_pos(set_codes@.len() as int, set_iter@.len() as int, true)],
        buf_hash_option is Some ==> buf_hash_option->Some_0 == self.sparse@[at_pos(self.sparse@.len() as int, buf_iter@.len() as int, true)],
        merging(buf@, set_codes@, at_pos(set_codes@.len() as int, set_iter@.len() as int, set_hash_option is Some),
            self.sparse@, at_pos(self.sparse@.len() as int, buf_iter@.len() as int, buf_hash_option is Some)),
    decreases set_iter@.len() + (if set_hash_option is Some { 1nat } else { 0nat }) + buf_iter@.len() + (if buf_hash_option is Some { 1nat } else { 0nat })
@at loop 0 after
    let ghost __buf = buf@;
    proof { lemma_buf_codes(&__old, buf@, set_codes@); }
@at exit
    proof {
        assert(self.registers is None ==> self.sparse@ == __buf);
        lemma_merge_done(&__old, self, __buf);
    }
@at return
    proof { if *self == __old { lemma_merge_nothing(self); } }
@fn HyperLogLogPlus::insert_impl
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@at start
    let ghost __old = *self; let ghost __h = hash_of(self.builder, value);
    broadcast use group_plus;
    proof { lemma_hash64(__h, self.precision); lemma_lz_forms64(__h, self.precision); lemma_pow2(self.precision); lemma_code(__h, self.precision); assert(self.codes() == self.tmpset@.union(seq_set(self.sparse@))); }
@at exit
    proof { lemma_plus_insert(&__old, self, __h); }
@fn HyperLogLogPlus::insert_any
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@fn HyperLogLogPlus::add
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@fn HyperLogLogPlus::insert
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@fn HyperLogLogPlus::merge
@attr #[verifier::rlimit(60)]
    requires old(self).wf(), other.wf()
    ensures final(self).wf(), final(self).same(old(self)),
        (ret is Ok) == (old(self).precision == other.precision),
        ret is Err ==> ret->Err_0 is IncompatiblePrecision && *final(self) == *old(self),
        ret is Ok ==> forall|a: Set<u64>, b: Set<u64>| #[trigger] old(self).holds(a) && #[trigger] other.holds(b) ==> final(self).holds(a.union(b)),
@at start
    let ghost __old = *self;
    broadcast use group_plus;
@loop 0
    invariant self.registers is None, self.sparse == __old.sparse, self.same(&__old),
        forall|k: int| 0 <= k < $n ==> self.tmpset@.contains(*(#[trigger] $s[k])),
        forall|x: u32| #[trigger] __old.tmpset@.contains(x) ==> self.tmpset@.contains(x),
        forall|x: u32| #[trigger] self.tmpset@.contains(x) ==> __old.tmpset@.contains(x) || other.tmpset@.contains(x),
@loop 1
    invariant self.registers is None, self.sparse == __old.sparse, self.same(&__old), $s == other.sparse@,
        forall|k: int| 0 <= k < $n ==> self.tmpset@.contains(#[trigger] $s[k]),
        forall|x: u32| #[trigger] __old.tmpset@.contains(x) ==> self.tmpset@.contains(x),
        forall|x: u32| #[trigger] other.tmpset@.contains(x) ==> self.tmpset@.contains(x),
        forall|x: u32| #[trigger] self.tmpset@.contains(x) ==> __old.tmpset@.contains(x) || other.tmpset@.contains(x) || other.sparse@.contains(x),
@at loop 1 after
    proof {
        lemma_merge_ss(&__old, other, self);
    }
@at loop 2 before
    proof { lemma_absorb_none(__old.regs(), __old.precision); lemma_first_ref_none($s); }
@loop 2
    invariant registers.wf(), registers.count == __old.counts.0, below(registers.regs(), 65 - __old.precision),
        forall|k: int| 0 <= k < $s.len() ==> other.tmpset@.contains(*(#[trigger] $s[k])),
        forall|x: u32| #[trigger] other.tmpset@.contains(x) ==> exists|k: int| 0 <= k < $s.len() && *$s[k] == x,
        absorbs(registers.regs(), __old.regs(), first_ref($s, $n), __old.precision),
@at loop 2 start
    proof {
        lemma_first_ref_push($s, $n - 1);
        lemma_dec_bounds(*$s[$n - 1], __old.precision);
        assert(other.codes().contains(*$s[$n - 1]));
        lemma_absorb(registers.regs(), __old.regs(), first_ref($s, $n - 1), *$s[$n - 1], __old.precision);
    }
@at loop 2 after
    proof { lemma_first_ref_all($s, other.tmpset@); lemma_first_all(other.sparse@); assert(other.tmpset@.union(Set::empty()) =~= other.tmpset@); }
@loop 3
    invariant registers.wf(), registers.count == __old.counts.0, below(registers.regs(), 65 - __old.precision),
        $s == other.sparse@,
        absorbs(registers.regs(), __old.regs(), other.tmpset@.union(first(other.sparse@, $n)), __old.precision),
@at loop 3 start
    proof {
        lemma_first_push(other.sparse@, $n - 1);
        lemma_union_insert(other.tmpset@, first(other.sparse@, $n - 1), other.sparse@[$n - 1]);
        lemma_dec_bounds(other.sparse@[$n - 1], __old.precision);
        lemma_seq_set(other.sparse@, other.sparse@[$n - 1]);
        assert(other.codes().contains(other.sparse@[$n - 1]));
        lemma_absorb(registers.regs(), __old.regs(), other.tmpset@.union(first(other.sparse@, $n - 1)), other.sparse@[$n - 1], __old.precision);
    }
@at loop 3 after
    proof { lemma_first_all(other.sparse@); lemma_merge_ds(&__old, other, self); }
@at let other_registers_iter after
    let ghost __base = registers.regs();
@loop 4
    invariant registers.wf(), registers.count == __old.counts.0, below(registers.regs(), 65 - __old.precision),
        $s.len() == registers.count, forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == (k as usize, other.regs()[k]),
        forall|i: int| 0 <= i < registers.count ==> #[trigger] registers.regs()[i] == if i < $n { max_regs(__base, other.regs())[i] } else { __base[i] },
@loop 4 range
    invariant registers.wf(), registers.count == __old.counts.0, below(registers.regs(), 65 - __old.precision),
        $s.len() == registers.count, forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == k,
        forall|i: int| 0 <= i < registers.count ==> #[trigger] registers.regs()[i] == if i < $n { max_regs(__base, other.regs())[i] } else { __base[i] },
@loop 4 while
    invariant registers.wf(), registers.count == __old.counts.0, below(registers.regs(), 65 - __old.precision), 0 <= $i <= registers.count,
        forall|__k: int| 0 <= __k < registers.count ==> #[trigger] registers.regs()[__k] == if __k < $i { max_regs(__base, other.regs())[__k] } else { __base[__k] },
    decreases registers.count - $i
@at loop 4 after
    proof {
        assert(registers.regs() =~= max_regs(__base, other.regs()));
        lemma_merge_xd(&__old, other, self, __base);
    }
@fn HyperLogLogPlus::threshold
    requires 4 <= precision <= 18
    ensures ret == threshold_spec(precision)
@fn HyperLogLogPlus::estimate_bias
    requires 4 <= self.precision <= 18, f_ord(raw)
    ensures ret == bias_spec(self.precision, raw)
@closure 0 &F64
    -> (r: Ordering)
        requires f_ord(*$0), f_ord(raw)
        ensures r == f_cmp(*$0, raw)->Some_0
@at start
    broadcast use {axiom_f_cmp, axiom_f_rev, lemma_cmp_cases};
    proof {
        lemma_tables(self.precision);
        if !f_le(raw, raw_table()[self.precision - 4][0]) && !f_le(raw_table()[self.precision - 4].last(), raw) { lemma_encloses(self.precision, raw); }
        let est = raw_table()[self.precision - 4];
        axiom_f_rev(raw, est[0]);
        axiom_f_rev(raw, est.last());
        assert forall|o: Seq<Ordering>| o.len() == est.len() && (forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] == f_cmp(est[k], raw)->Some_0) implies #[trigger] bs_res(o) == bs_res(ords(est, raw)) by { assert(o =~= ords(est, raw)); }
    }
@fn HyperLogLogPlus::count
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), final(self).tmpset@ == Set::<u32>::empty(),
        old(self).registers is Some ==> *final(self) == *old(self),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs),
        ret == final(self).estimate(), f_ord(ret), old(self).holds(Set::empty()) ==> ret == f_lit(0),
@at exit
    proof { theorem_plus_ord(self); if self.holds(Set::empty()) { theorem_plus_empty(self); } }
@at start
    broadcast use group_plus;
    broadcast use group_forms;
    broadcast use lemma_dif_count;
    proof { lemma_pow2(self.precision); }

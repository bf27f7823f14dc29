@fn RAW
    ensures ret@.len() == reg_cap(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == two_to_minus(i as u32)
@loop 0
    invariant raw@.len() == reg_cap(), 0 <= i <= reg_cap(), forall|k: int| 0 <= k < i ==> #[trigger] raw@[k] == two_to_minus(k as u32)
    decreases reg_cap() - i
@fn ln
    ensures ret == ln_of(x)
@fn HyperLogLogCommon::alpha
    ensures ret == alpha_spec(count as int)
@fn HyperLogLogCommon::linear_count
    ensures ret == linear_spec(count as int, zeros as int)
@fn HyperLogLogCommon::register_count
    requires precision <= 25
    ensures ret == 1usize << precision
@fn HyperLogLogCommon::estimate_raw_plus
    requires count <= 0x4_0000, forall|k: int| 0 <= k < registers@.len() ==> #[trigger] registers@[k] < reg_cap(), registers@.len() > 0
    ensures ret == raw_spec(registers@, count as int)
@closure 0 u32
    -> (r: F64)
        requires $0 < reg_cap()
        ensures r == two_to_minus($0)
@at start
    let ghost __in = registers@;
    proof { assert(count * count <= 0x10_0000_0000) by (nonlinear_arith) requires count <= 0x4_0000; }
@at exit
    proof { assert(forall|s: Seq<F64>| s.len() == __in.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == two_to_minus(__in[k])) ==> s == __in.map_values(|v: u32| two_to_minus(v)));
    }
@variant loop
@at start
    let ghost __in = registers@;
    proof { assert(count * count <= 0x10_0000_0000) by (nonlinear_arith) requires count <= 0x4_0000; lemma_raw_loop(registers@); }
@loop 0
    invariant $s == __in, $a == raw_acc(__in.take($n)),
@at loop 0 start
    proof { assert(__in.take($n).drop_last() =~= __in.take($n - 1)); assert(__in.take($n).last() == __in[$n - 1]); }
@at loop 0 after
    proof { assert(__in.take(__in.len() as int) =~= __in); }
@fn HyperLogLogCommon::estimate_raw
    requires count <= 0x4_0000, forall|k: int| 0 <= k < registers@.len() ==> #[trigger] registers@[k] < reg_cap(), registers@.len() <= usize::MAX
    ensures ret.0 == f_div(f_mul(alpha_spec(count as int), f_int(count * count)), raw_acc(registers@)), ret.1 == count_zeros(registers@)
@at start
    let ghost __in = registers@;
    proof { assert(count * count <= 0x10_0000_0000) by (nonlinear_arith) requires count <= 0x4_0000; }
@loop 0
    invariant $s == __in, raw == raw_acc(__in.take($n)), zeros == count_zeros(__in.take($n)), zeros <= $n,
@at loop 0 start
    proof { assert(__in.take($n).drop_last() =~= __in.take($n - 1)); assert(__in.take($n).last() == __in[$n - 1]); }
@at loop 0 after
    proof { assert(__in.take(__in.len() as int) =~= __in); }
@fn HyperLogLogPF::new
    ensures
        (4 <= precision <= 16) == (ret is Ok),
        ret is Err ==> ret->Err_0 is InvalidPrecision,
        ret is Ok ==> ret->Ok_0.holds(Set::empty()) && ret->Ok_0.precision == precision && ret->Ok_0.builder == builder,
        ret is Ok ==> classic_spec(ret->Ok_0.registers.regs(), ret->Ok_0.count as int) == f_lit(0),
@at start
    proof { lemma_pow2_all(precision); if 4 <= precision <= 16 { lemma_classic_new(precision); } }
@fn HyperLogLogPF::precision
    ensures ret == self.precision
@fn HyperLogLogPF::registers_iter
    requires self.registers.wf()
    ensures ret@ == self.registers.regs()
@fn HyperLogLogPF::insert_impl
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        final(self).registers.regs() == raise(old(self).registers.regs(), idx32(hash_of(old(self).builder, value), old(self).precision), rank32(hash_of(old(self).builder, value), old(self).precision)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@at start
    let ghost __old = *self; let ghost __h = hash_of(self.builder, value);
    proof { lemma_hash32(__h, self.precision); lemma_lz_forms32(__h, self.precision); lemma_pow2(self.precision); }
@at exit
    proof { lemma_pf_insert(&__old, self, __h); }
@fn HyperLogLogPF::insert_any
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@fn HyperLogLogPF::add
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@fn HyperLogLogPF::insert
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        forall|hs: Set<u64>| #[trigger] old(self).holds(hs) ==> final(self).holds(hs.insert(hash_of(old(self).builder, value))),
@fn HyperLogLogPF::merge
    requires old(self).wf(), other.wf()
    ensures final(self).wf(), final(self).same(old(self)),
        (ret is Ok) == (old(self).precision == other.precision),
        ret is Err ==> ret->Err_0 is IncompatiblePrecision && *final(self) == *old(self),
        ret is Ok ==> final(self).registers.regs() == max_regs(old(self).registers.regs(), other.registers.regs()),
        ret is Ok ==> forall|a: Set<u64>, b: Set<u64>| #[trigger] old(self).holds(a) && #[trigger] other.holds(b) ==> final(self).holds(a.union(b)),
@at start
    let ghost __old = *self;
@loop 0
    invariant self.wf(), self.same(&__old), 
        $s.len() == self.count, forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == (k as usize, other.registers.regs()[k]),
        forall|i: int| 0 <= i < self.count ==> #[trigger] self.registers.regs()[i] == if i < $n { max_regs(__old.registers.regs(), other.registers.regs())[i] } else { __old.registers.regs()[i] },
@loop 0 range
    invariant self.wf(), self.same(&__old),
        $s.len() == self.count, forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == k,
        forall|i: int| 0 <= i < self.count ==> #[trigger] self.registers.regs()[i] == if i < $n { max_regs(__old.registers.regs(), other.registers.regs())[i] } else { __old.registers.regs()[i] },
@loop 0 while
    invariant self.wf(), self.same(&__old), 0 <= $i <= self.count,
        forall|__k: int| 0 <= __k < self.count ==> #[trigger] self.registers.regs()[__k] == if __k < $i { max_regs(__old.registers.regs(), other.registers.regs())[__k] } else { __old.registers.regs()[__k] },
    decreases self.count - $i
@at exit
    proof {
        if __old.precision == other.precision {
            assert(self.registers.regs() =~= max_regs(__old.registers.regs(), other.registers.regs()));
            lemma_pf_merge(&__old, other, self);
        }
    }
@fn HyperLogLogPF::count
    requires old(self).wf()
    ensures *final(self) == *old(self), ret == classic_spec(old(self).registers.regs(), old(self).count as int),
        f_ord(ret), old(self).holds(Set::empty()) ==> ret == f_lit(0),
@at start
    broadcast use {axiom_f_cmp, axiom_f_rev, lemma_cmp_cases};
    proof { lemma_two32(); lemma_pow2(self.precision); theorem_pf_ord(self); lemma_count_forms(self.registers.regs(), self.count as int); lemma_classic_forms(self.registers.regs(), self.count as int); }

"""Which contracts carry which property."""
PF, PL, R5, R6, D, V = 'HyperLogLogPF::', 'HyperLogLogPlus::', 'Registers::', 'RegistersPlus::', 'DifIntVec::', 'VarIntVec::'

def f(pre, names):
    return [pre + n for n in names.split()]

REG5 = f(R5, 'with_count iter set_greater zeros size_in_bytes get') + ['ceil']
REG6 = f(R6, 'with_count iter set_greater zeros size_in_bytes get') + ['ceil']
ENC = f(V, 'new with_capacity push decode') + f(D, 'new with_capacity push count len clear into_iter') + ['DifIntVecIntoIter::next']
VIT = f(V, 'into_iter') + ['VarIntVecIntoIter::next']
CODE = ['u64_extract', 'u32_extract'] + f(PL, 'encode_hash index decode_hash')
PFI = f(PF, 'insert_impl insert add insert_any')
PLI = f(PL, 'insert_impl insert add insert_any')
PFE = f(PF, 'count estimate_raw_plus linear_count alpha register_count') + ['ln', 'RAW', 'log']
PLE = f(PL, 'count threshold estimate_bias estimate_raw_plus linear_count alpha register_count') + ['ln', 'RAW']
PFALL = PFI + PFE + f(PF, 'new merge precision registers_iter') + REG5
PLALL = PLI + PLE + f(PL, 'new merge precision registers_iter is_sparse sparse_to_normal merge_sparse') + REG6 + ENC + CODE

# direct: the contracts whose clauses are the property's content; cone: what
# their proofs rest on; theorems: lemmas over the contracts that state it.
PROPS = {
    'C01': dict(direct=[PF + 'new', PL + 'new'], cone=REG5[:1] + REG6[:1] + f(R6, 'size_in_bytes') + f(PF, 'register_count count') + f(PL, 'register_count count') + ENC[:1] + f(D, 'new') + ['ceil'],
                theorems=['lemma_hold_empty', 'lemma_empty_codes', 'lemma_classic_new', 'theorem_plus_empty']),
    'C02': dict(direct=PFI + f(R5, 'set_greater with_count') + [PF + 'new'], cone=REG5 + f(PF, 'register_count'), theorems=['lemma_pf_insert', 'lemma_hold_insert', 'lemma_hash32', 'lemma_hold_unique']),
    'C03': dict(direct=PLI + f(PL, 'sparse_to_normal index decode_hash') + f(R6, 'set_greater with_count'), cone=PLALL, theorems=['lemma_plus_insert', 'lemma_hash64', 'lemma_absorb_hold']),
    'C04': dict(direct=CODE, cone=[], theorems=['lemma_code', 'lemma_encode', 'lemma_decode', 'lemma_dec_bounds']),
    'C05': dict(direct=f(PL, 'sparse_to_normal decode_hash index') + f(R6, 'set_greater with_count'), cone=f(PL, 'merge_sparse') + ENC + REG6 + CODE, theorems=['lemma_absorb', 'lemma_absorb_hold', 'lemma_turn', 'lemma_turned_hold']),
    'C06': dict(direct=f(PL, 'merge_sparse insert_impl') + f(D, 'push count clear into_iter') + ['DifIntVecIntoIter::next'], cone=ENC + CODE + PLI + f(PL, 'count'), theorems=['lemma_merge_done', 'lemma_codes_insert', 'lemma_merging_end']),
    'C07': dict(direct=ENC + VIT, cone=[], theorems=['lemma_dif_push', 'lemma_dif_front', 'lemma_dif_count', 'lemma_dif_new', 'lemma_dec1_front', 'lemma_var_push', 'lemma_var_front']),
    'C08': dict(direct=REG5 + REG6, cone=[], theorems=['lemma_set', 'lemma_mask', 'lemma_or', 'lemma_iter', 'lemma_fresh']),
    'C09': dict(direct=f(PF, 'merge') + f(R5, 'set_greater iter'), cone=REG5 + f(PF, 'precision registers_iter'), theorems=['lemma_pf_merge', 'lemma_hold_union', 'lemma_hold_unique', 'theorem_pf_estimate']),
    'C10': dict(direct=f(PL, 'merge'), cone=PLALL, theorems=['lemma_merge_ss', 'lemma_merge_ds', 'lemma_merge_xd', 'lemma_codes_union', 'lemma_plus_unique']),
    'C11': dict(direct=f(PF, 'merge precision') + f(PL, 'merge precision'), cone=PFALL + PLALL, theorems=[]),
    'C12': dict(direct=f(PF, 'count') + f(PL, 'count'), cone=PFALL + PLALL, theorems=['theorem_plus_estimate', 'lemma_plus_unique', 'lemma_hold_unique', 'theorem_pf_estimate', 'theorem_same_set', 'lemma_mixed'], configs=['default', 'cl']),
    'C13': dict(direct=PFE, cone=f(R5, 'iter zeros'), theorems=['theorem_classic', 'theorem_pf_ord'], configs=['default', 'cl']),
    'C14': dict(direct=[x for x in PLE if not x.endswith('estimate_bias')], cone=f(PL, 'merge_sparse estimate_bias') + f(R6, 'iter zeros') + f(D, 'count'), theorems=['theorem_dense', 'theorem_plus_ord'], configs=['default', 'cl']),
    'C15': dict(direct=f(PL, 'estimate_bias'), cone=f(PL, 'count'), theorems=['lemma_encloses', 'lemma_bias'], tables=True),
    'C16': dict(direct=f(PL, 'new insert_impl merge_sparse merge sparse_to_normal') + f(R6, 'size_in_bytes') + f(D, 'len'), cone=PLALL, theorems=['lemma_overflow_mono', 'lemma_overflow_codes', 'lemma_enc_mono', 'lemma_merged_holds']),
    'C17': dict(direct=PFALL + PLALL, cone=[], theorems=[], safety=True),
    'C18': dict(direct=[], cone=[], theorems=['theorem_pf_copy', 'theorem_plus_copy'], derive='serde'),
    'C23': dict(direct=[], cone=[], theorems=['theorem_pf_copy', 'theorem_plus_copy'], derive='clone'),
    'C19': dict(direct=['RAW'] + f(PF, 'estimate_raw_plus') + f(PL, 'estimate_raw_plus') + ['log', 'ln'], cone=PFALL + PLALL, theorems=[], configs=['default', 'cl', 'alloc', 'alloccl'], features=True),
    'C20': dict(direct=['log'], cone=['ln'], theorems=['lemma_hi', 'lemma_fd_mask', 'lemma_fd_exp', 'lemma_fd_join', 'theorem_log', 'lemma_core_ord'], configs=['alloc']),
    'C21': dict(direct=PFI + PLI, cone=REG5 + PLALL, theorems=['lemma_pf_insert', 'lemma_plus_insert']),
}
CONFIGS = {
    'default': [],
    'cl': ['--features', 'const-loop'],
    'alloc': ['--no-default-features', '--features', 'alloc'],
    'alloccl': ['--no-default-features', '--features', 'alloc,const-loop'],
}
FINDER_FEATURES = {'default': 'std', 'cl': 'std,const-loop', 'alloc': 'alloc', 'alloccl': 'alloc,const-loop'}
# the leaf modules called directly
LEAF = {'C07', 'C08', 'C20'}

TRUSTED = [
    'Verus 0.2026.09.13 and its Z3: translation of the dialect to SMT, and the solver',
    'rustc -Zunpretty=expanded: the text verified is the compiler\'s own expansion of /repo\'s source for the feature set',
    'hllx (tools/hllx): the mechanical rewriting of the expanded text into the Verus dialect; what it drops is listed under dropped',
    'vstd specifications of Vec, slice, Option, integer operations, leading_zeros, std::collections::HashSet<u32> (insert, len, clear, iteration over each element once)',
    'iterator adapters (map, flatten, take, skip, enumerate, chain, zip, copied, sum, collect), HashSet iteration and drain, Vec iteration and slice::sort are replaced by stand-ins in spec/header.rs: each has a contract and an implementation verified against it; trusted is that std\'s meets that contract',
    'slice::binary_search_by: std\'s own body, taken from the toolchain\'s rust-src on every run and verified against its documented contract (hllx\'s rewriting of it is trusted as for /repo\'s code; unchecked reads and the loop hints are the difference)',
    'f64: the compiled add, sub, mul, div, min, comparisons, casts and bit conversions are IEEE 754 binary64 with rounding to nearest even (as Rust specifies), all NaNs identified, min of two zeros the first; what the proofs use of them are the axioms of spec/05_f64.rs, each of which Coq proves of Flocq\'s formalisation of that format (proofs/F64.v, rechecked on every run) from the standard axioms of the real numbers',
    'Coq 8.16, Flocq 4.1, and tools/f64stmt.py, which restates the axioms for Coq',
    'axiom_ln: std\'s ln of a number from 0 on is not NaN and ln(1) = 0 (std builds only; the no_std logarithm is verified); axiom_f_zero: the sum of no f64 is 0.0 or -0.0',
    'the accessors of the two bias tables return the constants extracted from the source (their shape, and equality with the published tables entry for entry, are proved by computation on every run)',
    'Hash / Hasher / BuildHasher are deterministic: hash_of(builder, value) is a function',
    'serde (C18): the traits Serializer, Deserializer, SeqAccess, MapAccess as their documentation demands of a format (fields handed back under the names they were written under, in any order, or all in order without names), serde\'s own impls for u8..usize, Vec, Option, tuples, PhantomData and HashSet<u32>, and that the hasher builder itself survives the round trip',
    'HashSet<u32>::clone copies the set (C23); the hasher builder\'s own Clone copies it',
    'Debug, Display and Error impls are not verified',
    'usize is 64 bits wide',
]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it stays readable)."""
import json, os
H, P, C, E, L, K = "src/hyperloglog.rs", "src/hyperloglogplus.rs", "src/common.rs", "src/encoding.rs", "src/log.rs", "src/constants.rs"
out = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Precision is validated and a new sketch is empty",
  "Constructing a classic sketch succeeds exactly for precisions 4 to 16, and a HyperLogLog++ sketch exactly for 4 to 18; every other precision is refused with the invalid-precision error. A sketch just constructed holds no value: every register is zero (the HyperLogLog++ one is sparse and has no codes) and its estimate is exactly 0.",
  ["inputs", "configurations"], "every 8-bit precision, both sketch types, every hasher builder",
  "The tests construct sketches at a few precisions and never look at the empty estimate across all of them.",
  [H, P, C], [("HyperLogLogPF::new, HyperLogLogPlus::new", H + ", " + P), ("Registers::with_count", C)],
  observe=["new()", "count()"])
p("C02", "Classic registers hold the maximum rank of the inserted hashes",
  "After any sequence of insertions into a classic HyperLogLog sketch of precision p, register i is the largest rank among the inserted values whose hash selects i, and 0 if no inserted value selects i. Only the low 32 bits of the hash count: their top p bits select the register and the rank is one plus the number of leading zeros in the remaining 32-p bits (33-p if they are all zero).",
  ["inputs", "histories"], "every precision 4..=16, every finite sequence of inserted values, every hasher",
  "The tests insert a few hand-picked hashes at precisions 4 and 16 and read a few registers; the statement is about all 2^32 hashes, all registers and all insertion histories.",
  [H, C], [("HyperLogLogPF::insert_impl", H), ("Registers::set_greater", C)],
  [("registers", "packed 5-bit maxima", H)], ["serialized registers", "count()"])
p("C03", "HyperLogLog++ dense registers hold the maximum rank",
  "While a HyperLogLog++ sketch of precision p is in its dense form, register i is the largest rank among all values inserted since it was created (before or after it became dense) whose 64-bit hash selects i, and 0 if none does. The top p bits of the hash select the register and the rank is one plus the number of leading zeros in the remaining 64-p bits.",
  ["inputs", "histories"], "every precision 4..=18, every finite sequence of inserted values, every hasher",
  "The tests read a handful of registers after a handful of insertions, mostly at one precision.",
  [P, C], [("HyperLogLogPlus::insert_impl", P), ("RegistersPlus::set_greater", C)],
  [("registers", "packed 6-bit maxima", P)], ["serialized registers", "count()"])
p("C04", "A sparse code determines register index and rank at every precision",
  "In sparse form a value is recorded as a 32-bit code made from the first 25 bits of its hash, with the rank past bit 25 added when the bits between the sketch's precision and bit 25 are all zero. For every 64-bit hash and every precision, the index and rank read back from the code are exactly those the dense form would have computed from the full hash.",
  ["inputs", "configurations"], "all 2^64 hashes, every precision 4..=18",
  "The tests encode and decode a few fixed hashes; an error in a shift or a mask shows up only for particular bit patterns at particular precisions.",
  [P, C], [("encode_hash, decode_hash, index", P), ("BitExtract", C)], observe=["serialized sparse codes", "registers after the transition"])
p("C05", "Becoming dense loses nothing",
  "When a HyperLogLog++ sketch changes from its sparse to its dense form, every recorded code (stored or pending) is transferred: each register is the largest rank among the codes that select it, 0 if none. The result is the register array that inserting the same values directly into a dense sketch would have given, and no codes are left behind.",
  ["inputs", "histories"], "every sparse sketch state reachable at any precision, on every path that makes the sketch dense (insertion, count, merge)",
  "One test performs the transition on a sequence of consecutive hashes; lost or duplicated codes at the edges of the two merged sequences need particular contents.",
  [P, E, C], [("merge_sparse, sparse_to_normal", P)], [("tmpset", "pending codes", P), ("sparse", "stored codes", P)], ["serialized registers", "count()"])
p("C06", "A sparse sketch records exactly the distinct codes of its values",
  "While a HyperLogLog++ sketch is sparse, the codes it holds, pending and stored together, are exactly the codes of the values inserted so far: none missing, none invented. The stored codes are strictly increasing, so each is stored once, and the stored count equals their number; an estimate first moves every pending code into the stored ones.",
  ["inputs", "histories"], "every history of insertions, merges and estimates that leaves the sketch sparse, every precision",
  "The tests look at a few small sketches; merging two sorted sequences with duplicates, ends and gaps in all positions is not sampled.",
  [P, E], [("insert_impl, merge, merge_sparse", P), ("DifIntVec", E)], [("tmpset", "pending codes", P), ("sparse", "stored codes", P)], ["serialized sparse contents", "count()"])
p("C07", "The difference and variable-length encoding is lossless",
  "Any non-decreasing sequence of 32-bit numbers that is stored in the difference-encoded vector is read back as the same sequence, in order and of the same length, whatever the sizes of the numbers and of the gaps between them. Each gap takes the minimal number of 7-bit groups, low group first, with the high bit of a byte marking that another follows; clearing leaves an empty sequence.",
  ["inputs", "histories"], "every non-decreasing sequence of u32 of any length, including 0, equal neighbours and gaps up to 2^32-1",
  "The tests encode short lists of small numbers; the five-byte groups and the carries between groups are hardly reached.",
  [E], [("VarIntVec::push, VarIntVec::decode", E), ("DifIntVec::push, DifIntVecIntoIter::next", E)], observe=["serialized sparse contents"])
p("C08", "Packed registers are independent and their zero counter is exact",
  "Registers packed into 32-bit words never affect one another: raising register i to a value leaves every other register as it was, and register i becomes the larger of its old value and the new one. The number of zero registers reported is always exactly the number of registers that are zero, and iterating yields every register once, in index order, and nothing more.",
  ["inputs", "histories"], "both register widths (5 and 6 bits), every register count a sketch uses, every index and value that fits, every sequence of updates",
  "The tests update two or three registers in a 10-register array.",
  [C], [("set_greater, zeros, iter, get, with_count (both instances)", C)], [("buf, count, zeros", "packed words, number of registers, number of zero registers", C)], ["serialized registers", "count()"])
p("C09", "Merging classic sketches equals sketching the union",
  "After merging one classic sketch into another of the same precision, the receiver has in every register the larger of the two: exactly the state of a sketch into which the values of both had been inserted. This holds for all contents, and also when the two sketches have different value types or hasher types; nothing else of the receiver changes.",
  ["inputs", "histories"], "every pair of reachable classic sketches of equal precision",
  "The tests merge a few six-element sketches at one precision.",
  [H, C], [("HyperLogLogPF::merge", H)], observe=["serialized registers", "count()"])
p("C10", "Merging HyperLogLog++ sketches equals sketching the union",
  "After merging one HyperLogLog++ sketch into another of the same precision, the receiver represents exactly the union of the values of both, whichever of the two are sparse or dense: as codes if it stays sparse, as registers if it is or becomes dense. Merging can make a sparse receiver dense, never the reverse, and nothing of the other sketch's contents (stored or pending) is left out.",
  ["inputs", "histories"], "every pair of reachable HyperLogLog++ sketches of equal precision, in all four combinations of forms, with pending codes on either side",
  "The tests take one pair per combination; pending codes, overlaps and receivers that become dense during the merge are combined in few ways.",
  [P, C, E], [("HyperLogLogPlus::merge", P)], observe=["serialized state", "count()"])
p("C11", "Sketches of different precision are never merged",
  "Merging two sketches of different precision fails with the incompatible-precision error and leaves the receiver exactly as it was; merging two sketches of equal precision always succeeds. Both hold for both sketch types, whatever the sketches contain.",
  ["inputs", "histories"], "every pair of sketches of the same type, every pair of precisions",
  "The tests try one or two pairs of precisions on small sketches and do not compare the state afterwards.",
  [H, P], [("merge", H + ", " + P)], observe=["merge()", "serialized state"])
p("C12", "The estimate depends only on the set of inserted values",
  "For a given precision and hasher, the estimate is a function of the set of values alone: the order and the repetition of insertions, how the values were split over sketches that were then merged, and estimates taken in between make no difference to it. In particular inserting a value that is already present, merging a sketch with itself or an empty one, and calling the estimate twice never change it, for both sketch types.",
  ["inputs", "histories"], "every two histories of insertions, merges and estimates that put the same set of hash values into sketches of equal precision",
  "This relates all pairs of histories; the tests never compare two histories.",
  [H, P, C, E], [("insert, merge, count", H + ", " + P)], observe=["count()"])
p("C13", "The classic estimate follows the published formula and ranges",
  "The classic estimate is alpha_m m^2 / sum(2^-register) with the published alpha_m (0.673, 0.697, 0.709 for m = 16, 32, 64, else 0.7213/(1+1.079/m)). If that raw value is at most 2.5 m and some register is zero the estimate is m ln(m/zeros) instead, and if it exceeds 2^32/30 it is -2^32 ln(1 - raw/2^32), with raw capped at 2^32; these are the only cases and there is no panic or NaN in any of them.",
  ["inputs", "histories"], "every reachable register array at every precision 4..=16",
  "The tests check the truncated estimate of five or six insertions; the large-range branch, the boundaries and the saturated sketch are never reached.",
  [H, C], [("HyperLogLogPF::count", H), ("estimate_raw_plus, linear_count, alpha", C)], observe=["count()"])
p("C14", "The HyperLogLog++ estimate follows the published procedure",
  "In sparse form the estimate is linear counting over the 2^25 slots of the sparse precision: 2^25 ln(2^25 / (2^25 - number of distinct codes)). In dense form it is linear counting m ln(m/zeros) when some register is zero and that value does not exceed the published threshold for the precision (10, 20, 40, 80, 220, 400, 900, 1800, 3100, 6500, 11500, 20000, 50000, 120000, 350000 for 4 to 18); otherwise it is the raw estimate, less the bias for it when it is at most 5 m. No estimate is NaN.",
  ["inputs", "histories"], "every reachable state at every precision 4..=18",
  "The tests check the truncated estimate of a few insertions at one or two precisions; thresholds are pinned at none of the boundaries.",
  [P, C], [("HyperLogLogPlus::count, threshold", P), ("estimate_raw_plus, linear_count, alpha", C)], observe=["count()"])
p("C15", "Bias correction interpolates the published tables",
  "The bias subtracted from a raw HyperLogLog++ estimate is taken from the table of the sketch's own precision: the first or last bias if the estimate is at or beyond the first or last tabulated estimate, otherwise linear interpolation between two neighbouring tabulated points that enclose the estimate. The tables are the published ones, entry for entry, and no estimate leads to an access outside them.",
  ["inputs", "configurations"], "every raw estimate (any ordered float) at every precision 4..=18, every table entry",
  "The tests sample a few estimates at a few precisions; the tables have some 6000 entries, and for precisions 5 and 6 they are not perfectly sorted.",
  [P, K], [("estimate_bias", P), ("RAW_ESTIMATE_DATA, BIAS_DATA", K)], observe=["count()"])
p("C16", "The sparse form stays within its memory budget",
  "After every operation, a sparse HyperLogLog++ sketch of precision p stores its codes in at most floor(4*2^p/5) bytes and has at most one hundredth of that number of pending codes. It becomes dense exactly when merging the pending codes would exceed the budget (or when a dense sketch is merged into it), and a dense sketch keeps no codes and never becomes sparse again.",
  ["inputs", "histories"], "every history of insertions, merges and estimates at every precision",
  "Only one history is tested for the transition and its size is not checked.",
  [P, E, C], [("insert_impl, merge, merge_sparse", P), ("size_in_bytes", C)], observe=["serialized state"])
p("C17", "No history makes a sketch panic, overflow or read out of bounds",
  "Starting from any successfully constructed sketch, no sequence of insertions, merges, estimates and clones makes the library panic: no index out of range, no arithmetic overflow or underflow, no shift by too much, no unwrap of nothing, no division by zero, and every internal loop terminates.",
  ["inputs", "histories"], "every precision, every sequence of operations on any number of sketches, every hash value",
  "Tests run a few histories; overflow checks only fire on the values they happen to use.",
  [H, P, C, E], [("all operations", "src/")], observe=["every public operation"])
p("C18", "Serialization preserves a sketch",
  "Serializing a sketch and deserializing the result gives a sketch that is indistinguishable from the original: same estimates, and the same behaviour under every further operation.",
  ["inputs", "histories"], "every reachable sketch, every serde data format",
  "One round trip per type is tested on a small sketch.",
  [H, P, C, E], [("derive(Serialize, Deserialize)", "src/")], observe=["serde", "count()"])
p("C19", "Build features do not change the results",
  "Enabling the const-loop feature changes no estimate: the table it uses holds 1/2^v for every value v a register can take, for both sketch types. The build without std offers the same classic sketch: same registers after every history and the same estimate formula, with its own logarithm.",
  ["configurations", "inputs", "histories"], "the feature sets std, std+const-loop, alloc, alloc+const-loop; every reachable sketch",
  "The CI tests two of the feature sets, separately and with the same few inputs; the no_std build is not tested at all.",
  [C, H, P, L], [("RAW, estimate_raw_plus, ln", C)], observe=["count()"])
p("C20", "The no_std logarithm is the published algorithm",
  "In the build without std the natural logarithm is computed as in FreeBSD's e_log.c: argument reduction to [sqrt(2)/2, sqrt(2)), the published polynomial coefficients and split ln 2, with log(1) = 0, log of +-0 = -infinity, log of a negative number NaN, infinity and NaN returned unchanged and subnormal numbers scaled by 2^54. No argument makes it overflow an integer or panic.",
  ["inputs"], "all 2^64 bit patterns of an f64",
  "There is no test of it.",
  [L, C], [("log", L), ("ln", C)], observe=["count() of the no_std build"])
p("C21", "All ways of inserting a value have the same effect",
  "Inserting a value through insert, the deprecated add, or insert_any has the same effect, which depends only on the hash that the sketch's own hasher builder gives that value: also for borrowed forms (a str for a String), unsized values and, with insert_any, values of other types. The hasher builder itself is never changed or replaced.",
  ["inputs", "histories"], "every value, value type and hasher builder, every state of the sketch, both sketch types",
  "The tests use insert with one value type and a pass-through hasher almost everywhere.",
  [H, P], [("insert, add, insert_any, insert_impl", H + ", " + P)], observe=["serialized state", "count()"])
p("C22", "The estimate has the advertised accuracy",
  "For a good hash function the relative standard error of the estimate is about 1.04/sqrt(2^p) over the whole range of cardinalities, and smaller than that for cardinalities far below 2^p.",
  ["inputs"], "random hash values, every cardinality, every precision",
  "A distributional statement; tests sample it at best.",
  [H, P], [("count", H + ", " + P)], observe=["count()"])
p("C23", "A clone is an exact and independent copy",
  "Cloning a sketch gives one with the same hasher builder, precision, form and contents: it has the same estimate, behaves the same under every further operation, and nothing done to either of the two afterwards shows in the other. Assigning a clone with clone_from does the same whatever the target held before.",
  ["inputs", "histories"], "every reachable sketch of both types, every continuation on either copy",
  "No test clones a sketch and looks at both copies.",
  [H, P, C, E], [("derive(Clone)", "src/")], observe=["clone()", "count()"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")

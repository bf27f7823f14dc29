#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/check/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'check'))
from props import PROPS
V = os.path.dirname(here)
T = 'contract-based deductive verification (Verus/Z3) of the functions mechanically extracted from /repo on every run'
NOTE = {
 'C01': 'Proved: acceptance exactly for 4..=16 / 4..=18, the error otherwise, all registers zero / no codes. That the estimate of the empty sketch is exactly 0 is f64 evaluation: count is proved to be the formula of the registers, and the formula is evaluated on the real code for all 28 precisions (exhaustive).',
 'C02': 'Proved for every insertion on every state, so by induction for every history.',
 'C03': 'Proved for every insertion on every state, sparse prefix included, so by induction for every history.',
 'C04': 'Proved for all 2^64 hashes and all 15 precisions.',
 'C05': 'Proved; loop invariants over the stored codes, no bound.',
 'C06': 'Proved; merge loop with two iterators by invariant, no bound. HashSet and slice::sort by their contracts (trusted).',
 'C07': 'Proved for every non-decreasing sequence of u32. Trusted: Vec.',
 'C08': 'Proved for every count and index. Trusted: iterator adapters used by iter().',
 'C09': 'Proved for every pair of states.',
 'C10': 'Proved for every pair of states in all four form combinations.',
 'C11': 'Proved.',
 'C12': 'Proved as a theorem over the contracts: state determines the estimate and the set of hashes determines the state. f64 operations are deterministic functions (uninterpreted).',
 'C13': 'Formula, cases and order of the operations proved up to f64 symbols (f64 arithmetic uninterpreted; alternatives that differ only in rounding are outside the proof). Absence of NaN and agreement with an independent f64 computation: bounded search on the real code.',
 'C14': 'As C13; threshold table proved constant by constant.',
 'C15': 'Selection of the enclosing points and the interpolation proved up to f64 symbols, given that the tables are well formed; the tables are compared entry for entry with the recorded published ones on every run. slice::binary_search_by by its documented contract (trusted).',
 'C16': 'Proved as part of the data invariant of the sketch and the contract of merge_sparse.',
 'C17': 'Proved: every verified function is free of panics, arithmetic overflow, out-of-range access, and every loop has a decreasing measure, given the data invariant, which every public operation is proved to keep. Allocation failure and panics of user-supplied Hash/BuildHasher are outside.',
 'C18': 'Proved: the code the derive macros expand to (Serialize, Deserialize, the visitors) is under contract: it writes every field, under a name of its own, and reading that back, as named fields in any order or as a sequence, yields the same fields; and a sketch with the same fields holds the same values and has the same estimate. Trusted: serde traits and the impls of serde for standard types, the round trip of the hasher builder. String literals are numbered, the error constructors of serde and expecting() are dropped. Impls written by hand that the verifier refuses are left to the search on five formats (bounded), and the run says so.',
 'C23': 'Proved: every clone() of the crate (derived or by hand) returns equal fields; same fields, same values and estimate. Independence follows from ownership: no field is a shared reference. Trusted: Vec contents are cloned element by element (verified), HashSet::clone, the clone of the hasher builder. clone_from by hand is left to the search.',
 'C19': 'The same contracts are proved in four feature sets (std, const-loop, alloc, alloc+const-loop). Feature sets are also built and searched.',
 'C20': 'The code is proved to be e_log.c operation for operation (f64 symbols uninterpreted). Trusted: the scaling fact for subnormals. The value on the listed special arguments: exhaustive/bounded execution against a reference transcription.',
 'C21': 'Proved: each way of inserting has the contract of the same core operation on hash_of(builder, value); the builder is in the frame. Trusted: Borrow implementations hash alike (a requirement of the trait), hashing is deterministic.',
}
checks = [dict(property=p, quick_cmd='./run_check.sh %s quick' % p, thorough_cmd='./run_check.sh %s thorough' % p, evidence_file='evidence/%s.json' % p,
    technique=T, level='proof', level_note=NOTE[p] + ' The trusted base is listed in DESIGN.md and in the evidence file.', theorems=P['theorems'] + sorted(set(P['direct']))) for p, P in sorted(PROPS.items())]
na = [dict(property='C22', reason='A statistical statement about random hash functions; contracts speak about single executions, and f64 rounding and ln are uninterpreted here.')]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: contracts live in /verif/spec and are attached to the functions extracted from the compiler\'s own expansion of /repo on every run. See DESIGN.md.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

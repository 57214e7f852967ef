"""The planted bugs: edits of /repo and demonstrations. mkseed.py writes seeded/ from them."""
PRELUDE = r'''#![allow(unused)]
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::traits::*;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::*;
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::decode::instruction_flags::*;
use lambdaworks_stark::cairo::decode::instruction_offsets::*;
use lambdaworks_stark::cairo::execution_trace::*;
use lambdaworks_stark::cairo::register_states::*;
use lambdaworks_stark::cairo::runner::run::*;
use lambdaworks_stark::cairo::runner::vec_writer::VecWriter;
use lambdaworks_stark::starks::constraints::boundary::*;
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::example::simple_fibonacci::*;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::grinding::*;
use lambdaworks_stark::starks::proof::options::*;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::verifier::verify;
use std::collections::HashMap;
type S = Stark252PrimeField;
type FE = FieldElement<S>;
fn opts() -> ProofOptions { ProofOptions::default_test_options() }
fn fib(n: usize) -> (TraceTable<S>, FibonacciPublicInputs<S>) {
    let t = fibonacci_trace([FE::from(1u64), FE::from(1u64)], n);
    (t, FibonacciPublicInputs { a0: FE::from(1u64), a1: FE::from(1u64) })
}
/// A compiled Cairo 0 program.
fn program(words: &[&str], builtins: &str) -> Vec<u8> {
    let data: Vec<String> = words.iter().map(|w| format!("\"0x{w}\"")).collect();
    format!("{{\"prime\":\"0x800000000000011000000000000000000000000000000000000000000000001\",\"data\":[{}],\"builtins\":[{builtins}],\"hints\":{{}},\"identifiers\":{{\"__main__.main\":{{\"pc\":0,\"type\":\"function\"}}}},\"main_scope\":\"__main__\"}}", data.join(",")).into_bytes()
}
/// Registers and memory given directly: [pc, ap, fp] and (address, value).
fn direct(regs: &[[u64; 3]], mem: &[(u64, &str)]) -> (RegisterStates, CairoMemory) {
    (RegisterStates { rows: regs.iter().map(|r| RegistersState { pc: r[0], ap: r[1], fp: r[2] }).collect() },
     CairoMemory::new(mem.iter().map(|(a, v)| (*a, FE::from_hex(v).unwrap())).collect()))
}
'''
SEEDS = {}


def seed(i, prop, needs, breaks, edits, demo):
    SEEDS[i] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


V = "src/starks/verifier.rs"
seed("fri-first-path", "C05",
     "a proof whose first-layer authentication path does not match its evaluation",
     "the first FRI layer's authentication path is taken for granted, as if the DEEP check bound it",
     [(V, "auth_path.verify::<FriMerkleTreeBackend<F>>(merkle_root, iota, evaluation);",
       "k == 0 || auth_path.verify::<FriMerkleTreeBackend<F>>(merkle_root, iota, evaluation);"),
      (V, "let auth_point =\n                    k == 0", "let auth_point =\n                    &(k == 0"),
      (V, "merkle_root, iota, evaluation);\n                let beta", "merkle_root, iota, evaluation));\n                let beta")],
     r'''fn main() {
    let (t, p) = fib(32);
    let mut proof = prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()));
    proof.query_list[1].layers_auth_paths[0].merkle_path[2][5] ^= 1;
    assert!(!verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()), "a wrong path is accepted");
}
''')
seed("fri-last-query", "C04",
     "more than one query, the last one sound and an earlier one not",
     "only the last query's FRI consistency decides",
     [(V, "            result &= verify_query_and_sym_openings(", "            result = verify_query_and_sym_openings(")],
     r'''fn main() {
    let (t, p) = fib(32);
    let mut proof = prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()));
    let v = proof.query_list[0].layers_evaluations_sym[3].clone();
    proof.query_list[0].layers_evaluations_sym[3] = v + FE::one();
    assert!(!verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()), "a word that does not fold is accepted");
}
''')
seed("nonce-low-half", "C08",
     "a nonce of 2^32 or more",
     "only the low half of the nonce enters the grinding hash, so nonces that were never ground pass",
     [("src/starks/grinding.rs", "data[32..].copy_from_slice(&value.to_le_bytes());\n\n    let digest = Keccak256::digest(data);\n\n    let seed_head = u64::from_be_bytes(digest[..8].try_into().unwrap());\n    seed_head",
       "data[32..36].copy_from_slice(&(value as u32).to_le_bytes());\n\n    let digest = Keccak256::digest(data);\n\n    let seed_head = u64::from_be_bytes(digest[..8].try_into().unwrap());\n    seed_head")],
     r'''use sha3::{Digest, Keccak256};
fn main() {
    for k in 0..64u64 {
        let ch: [u8; 32] = Keccak256::digest(k.to_be_bytes()).into();
        for n in [k, k << 32, u64::MAX - k] {
            let mut data = [0u8; 40];
            data[..32].copy_from_slice(&ch);
            data[32..].copy_from_slice(&n.to_le_bytes());
            let d = Keccak256::digest(data);
            let want = u64::from_be_bytes(d[..8].try_into().unwrap()).trailing_zeros() as u8;
            assert_eq!(hash_transcript_with_int_and_get_leading_zeros(&ch, n), want, "nonce {n}");
        }
    }
}
''')
seed("field-bound", "C09",
     "a security target exactly 40 bits below the field size",
     "the field check lets the boundary case through",
     [("src/starks/proof/options.rs", "            <= security_target as usize + Self::NUM_BITS_MAX_DOMAIN_SIZE", "            < security_target as usize + Self::NUM_BITS_MAX_DOMAIN_SIZE")],
     r'''fn main() {
    let (q, t) = (5000, 212);
    assert!(ProofOptions::new_with_checked_security::<S>(4, q, 3, 20, t - 1).is_ok());
    assert!(ProofOptions::new_with_checked_security::<S>(4, q, 3, 20, t).is_err());
    assert!(ProofOptions::new_with_checked_provable_security::<S>(4, q, 3, 20, t).is_err());
}
''')
seed("exemption-order", "C01",
     "an arithmetization whose exemption counts are not listed in ascending order",
     "the exemption polynomials are sorted while the evaluator finds them by order of appearance",
     [("src/starks/traits.rs", "            .filter(|v| *v > &0_usize)\n", "            .filter(|v| *v > &0_usize)\n            .sorted()\n")],
     r'''#[derive(Clone)]
struct Two { context: AirContext, n: usize, p: FE }
/// column 0: Fibonacci (last two steps exempt); column 1: doubling (last step exempt)
impl AIR for Two {
    type Field = S;
    type RAPChallenges = ();
    type PublicInputs = FE;
    fn new(n: usize, p: &FE, o: &ProofOptions) -> Self {
        Two { context: AirContext { proof_options: o.clone(), trace_columns: 2, transition_degrees: vec![1, 1], transition_exemptions: vec![2, 1],
                                    transition_offsets: vec![0, 1, 2], num_transition_constraints: 2, num_transition_exemptions: 2 }, n, p: p.clone() }
    }
    fn composition_poly_degree_bound(&self) -> usize { self.n }
    fn build_auxiliary_trace(&self, _: &TraceTable<S>, _: &()) -> TraceTable<S> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<S>, _: &()) -> Vec<FE> {
        let (a, b, c) = (f.get_row(0), f.get_row(1), f.get_row(2));
        vec![&c[0] - &b[0] - &a[0], &b[1] - &a[1] - &a[1]]
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<S> {
        BoundaryConstraints::from_constraints(vec![BoundaryConstraint::new(0, 0, self.p.clone()), BoundaryConstraint::new(1, 0, self.p.clone())])
    }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { &self.context }
    fn trace_length(&self) -> usize { self.n }
    fn pub_inputs(&self) -> &FE { &self.p }
}
fn main() {
    let one = FE::one();
    let f = fibonacci_trace([one.clone(), one.clone()], 16).cols()[0].clone();
    let mut d = vec![one.clone()];
    for k in 0..15 { let x = &d[k] + &d[k]; d.push(x); }
    let t = TraceTable::new_from_cols(&[f, d]);
    let proof = prove::<S, Two>(&t, &one, &opts()).unwrap();
    assert!(verify::<S, Two>(&proof, &one, &opts()), "the proof of a valid trace is rejected");
}
''')
seed("res-logic-three", "C12",
     "an instruction word whose res_logic bits are both set",
     "the invalid res_logic 3 is decoded as the unconstrained one",
     [("src/cairo/decode/instruction_flags.rs", "            4 => Ok(ResLogic::Unconstrained),", "            3 => Ok(ResLogic::Unconstrained),")],
     r'''fn main() {
    let word = |flags: u64| FE::from((flags << 48) | 0x7fff80008000);
    assert!(CairoInstructionFlags::try_from(&word(0x4024)).is_ok());
    assert!(CairoInstructionFlags::try_from(&word(0x4064)).is_err(), "res_logic 3 is decoded");
}
''')
seed("call-size", "C13",
     "a relative call whose operand is not an immediate, or an absolute call with an immediate",
     "the return address of a call is computed from the kind of jump instead of the kind of operand",
     [("src/cairo/execution_trace.rs", "            let instruction_size = if flags[i].op1_src == Op1Src::Imm {", "            let instruction_size = if flags[i].pc_update == PcUpdate::JumpRel {")],
     r'''fn main() {
    // call abs 5; 2: jmp rel 0 ... 5: ret
    let (r, m) = direct(&[[1, 20, 20], [5, 22, 22], [3, 22, 20]],
        &[(1, "1084800180018000"), (2, "5"), (3, "480680017fff8000"), (4, "7"), (5, "208b7fff7fff7ffe"),
          (18, "14"), (19, "1"), (20, "14"), (21, "3"), (22, "7")]);
    let p = PublicInputs::from_regs_and_mem(&r, &m, 5, &MemorySegmentMap::new());
    let t = build_cairo_execution_trace(&r, &m, &p);
    assert_eq!(t.get(0, FRAME_OP0), FE::from(3u64), "the return address of a call with an immediate is pc + 2");
}
''')
seed("holes-after-program", "C14",
     "a gap in the accessed addresses that begins inside the program segment and ends behind it",
     "addresses between the program and the first accessed cell behind it are not filled",
     [("src/cairo/execution_trace.rs", "            && addr.representative() > (codelen as u64).into()\n", "            && prev_addr.representative() > (codelen as u64).into()\n")],
     r'''fn main() {
    // [ap] = 7; ap++ at 1..2; ret at 3 is never accessed beyond; frame at 9
    let (r, m) = direct(&[[1, 9, 9], [3, 10, 9]],
        &[(1, "480680017fff8000"), (2, "7"), (3, "208b7fff7fff7ffe"), (4, "0"), (5, "0"), (6, "0"), (7, "9"), (8, "b"), (9, "7")]);
    let mut p = PublicInputs::from_regs_and_mem(&r, &m, 3, &MemorySegmentMap::new());
    let t = build_main_trace(&r, &m, &mut p);
    let mut seen: Vec<FE> = vec![];
    for c in ADDR_COLUMNS { for k in 0..t.n_rows() { seen.push(t.get(k, c)); } }
    for a in 4u64..=9 { assert!(seen.contains(&FE::from(a)), "address {a} is missing"); }
}
''')
seed("empty-segment", "C11",
     "public inputs with an empty memory segment",
     "empty memory segments are dropped on the wire, so the statement read back has another layout",
     [("src/cairo/air.rs", "        for (segment, range) in self.memory_segments.iter() {", "        let segments = || self.memory_segments.iter().filter(|(_, range)| !range.is_empty());\n        for (segment, range) in segments() {"),
      ("src/cairo/air.rs", "        let memory_segment_length = self.memory_segments.len();", "        let memory_segment_length = segments().count();")],
     r'''fn main() {
    let (r, m) = direct(&[[1, 5, 5], [3, 6, 5]], &[(1, "480680017fff8000"), (2, "7"), (3, "208b7fff7fff7ffe"), (4, "1"), (5, "7")]);
    for (rc, out) in [(Some(4..4), None), (None, Some(5..5)), (Some(4..5), Some(5..6)), (Some(4..4), Some(5..6))] {
        let mut s = MemorySegmentMap::new();
        if let Some(x) = rc { s.insert(MemorySegment::RangeCheck, x); }
        if let Some(x) = out { s.insert(MemorySegment::Output, x); }
        let p = PublicInputs::from_regs_and_mem(&r, &m, 3, &s);
        let q = PublicInputs::deserialize(&p.serialize()).unwrap();
        assert_eq!(p.memory_segments, q.memory_segments);
        assert_eq!(p.public_memory, q.public_memory);
    }
}
''')
seed("reserve-queries", "C10",
     "a serialized proof whose query count is damaged to a huge number",
     "room for the claimed number of queries is reserved up front, so a damaged count aborts or panics",
     [("src/starks/proof/stark.rs", "        let mut query_list = vec![];", "        let mut query_list = Vec::with_capacity(query_list_len);")],
     r'''fn main() {
    let (t, p) = fib(16);
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap();
    let bytes = proof.serialize();
    // length, roots, frame, composition, FRI roots and last value come before the query count
    let mut at = 8;
    let u = |at: usize| u64::from_be_bytes(bytes[at..at + 8].try_into().unwrap()) as usize;
    at += 8 + 32 * u(at);
    at += 8 + u(at);
    at += 32;
    at += 8 + 2 * u(at);
    at += 8 + 32 * u(at);
    at += 32;
    assert_eq!(u(at), 3);
    for n in [4u64, 1 << 40, u64::MAX] {
        let mut b = bytes.clone();
        b[at..at + 8].copy_from_slice(&n.to_be_bytes());
        assert!(StarkProof::<S>::deserialize(&b).is_err());
    }
}
''')
seed("sparse-memory", "C19",
     "a run in which some cell holds zero",
     "cells that hold zero are left out of the memory file as if they were unset",
     [("src/cairo/runner/vec_writer.rs", "                None => continue,\n", "                None => continue,\n                Some(cell) if cell == &Felt252::default() => continue,\n")],
     r'''fn main() {
    use cairo_vm::felt::Felt252;
    let cells = vec![None, Some(Felt252::from(5u64)), None, Some(Felt252::from(0u64)), Some(Felt252::from(1u64))];
    let mut b = vec![];
    VecWriter::new(&mut b).write_encoded_memory(&cells);
    let m = CairoMemory::from_bytes_le(&b).unwrap();
    assert_eq!(m.len(), 3);
    assert_eq!(m.get(&3), Some(&FE::zero()));
}
''')
seed("segment-or-segment", "C20",
     "a program that uses range checks, proven with an output range",
     "the output range is dropped when there is a range-check segment",
     [("src/cairo/runner/run.rs", "        memory_segments.insert(MemorySegment::RangeCheck, range_check_builtin_range);\n    }\n    if let", "        memory_segments.insert(MemorySegment::RangeCheck, range_check_builtin_range);\n    } else if let")],
     r'''fn main() {
    // %builtins output range_check; writes 9 to output and 5 to range_check
    let p = program(&["480680017fff8000", "9", "400280007ffc7fff", "480680017fff8000", "5", "400280007ffd7fff",
                      "482680017ffc8000", "1", "482680017ffd8000", "1", "208b7fff7fff7ffe"], "\"output\",\"range_check\"");
    let (_, plain) = generate_prover_args(&p, &CairoVersion::V0, &None).unwrap();
    let rc = plain.memory_segments[&MemorySegment::RangeCheck].clone();
    let out = rc.start - 1..rc.start;
    let (t, i) = generate_prover_args(&p, &CairoVersion::V0, &Some(out.clone())).unwrap();
    assert_eq!(i.memory_segments.get(&MemorySegment::RangeCheck), Some(&rc));
    assert_eq!(i.memory_segments.get(&MemorySegment::Output), Some(&out), "the output range is lost");
    assert_eq!(i.public_memory.get(&FE::from(out.start)), Some(&FE::from(9u64)));
}
''')
seed("selector-reach", "C17",
     "a row after the last step whose first two sorted addresses are not consecutive",
     "the step selector also switches off the first memory continuity constraint on padding rows",
     [("src/cairo/air.rs", "        enforce_selector(&mut constraints, frame);\n        memory_is_increasing(&mut constraints, frame, builtin_offset);\n", "        memory_is_increasing(&mut constraints, frame, builtin_offset);\n        enforce_selector(&mut constraints, frame);\n"),
      ("src/cairo/air.rs", ".take(ASSERT_EQ + 1).skip(INST)", ".take(ASSERT_EQ + 2).skip(INST)")],
     r'''fn main() {
    let (r, m) = direct(&[[1, 5, 5], [3, 6, 5]], &[(1, "480680017fff8000"), (2, "7"), (3, "208b7fff7fff7ffe"), (4, "1"), (5, "7")]);
    let mut p = PublicInputs::from_regs_and_mem(&r, &m, 3, &MemorySegmentMap::new());
    p.range_check_min = Some(0);
    p.range_check_max = Some(1);
    let air = CairoAIR::new(16, &p, &opts());
    let ch = CairoRAPChallenges { alpha_memory: FE::from(3u64), z_memory: FE::from(5u64), z_range_check: FE::from(7u64) };
    for width in [52usize] {
        // all zero but the first sorted address: 0 -> 5 is not an increase by zero or one
        let mut row = vec![FE::zero(); 2 * width];
        let sorted1 = 34 + 3 + 1;
        row[sorted1] = FE::from(5u64);
        let c = air.compute_transition(&Frame::new(row, width), &ch);
        assert!(c[31] != FE::zero(), "a jump in the sorted addresses is not noticed");
    }
}
''')
E = "src/starks/constraints/evaluator.rs"
A = "src/cairo/air.rs"
X = "src/cairo/execution_trace.rs"
P = "src/starks/prover.rs"
# A fake transcript, AIRs and programs the demonstrations share.
TWO = r'''#[derive(Clone)]
struct Two { context: AirContext, n: usize, p: FE }
/// column 0: Fibonacci (last two steps exempt); column 1: doubling (last step exempt)
impl AIR for Two {
    type Field = S;
    type RAPChallenges = ();
    type PublicInputs = FE;
    fn new(n: usize, p: &FE, o: &ProofOptions) -> Self {
        Two { context: AirContext { proof_options: o.clone(), trace_columns: 2, transition_degrees: vec![1, 1], transition_exemptions: vec![2, 1],
                                    transition_offsets: vec![0, 1, 2], num_transition_constraints: 2, num_transition_exemptions: 2 }, n, p: p.clone() }
    }
    fn composition_poly_degree_bound(&self) -> usize { self.n }
    fn build_auxiliary_trace(&self, _: &TraceTable<S>, _: &()) -> TraceTable<S> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<S>, _: &()) -> Vec<FE> {
        let (a, b, c) = (f.get_row(0), f.get_row(1), f.get_row(2));
        vec![&c[0] - &b[0] - &a[0], &b[1] - &a[1] - &a[1]]
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<S> {
        BoundaryConstraints::from_constraints(vec![BoundaryConstraint::new(0, 0, self.p.clone()), BoundaryConstraint::new(1, 0, self.p.clone())])
    }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { &self.context }
    fn trace_length(&self) -> usize { self.n }
    fn pub_inputs(&self) -> &FE { &self.p }
}
fn doubling(n: usize) -> Vec<FE> {
    let mut d = vec![FE::one()];
    for k in 1..n { let x = &d[k - 1] + &d[k - 1]; d.push(x); }
    d
}
'''
RCPROG = r'''/// %builtins output range_check; writes the words to output and `rc` to range_check
fn rcprog(outs: usize, rc: &[&str]) -> Vec<u8> {
    let mut w: Vec<String> = vec![];
    for k in 0..outs { w.extend(["480680017fff8000".into(), format!("{:x}", k + 1), format!("4002{:04x}7ffc7fff", 0x8000 + k)]); }
    for (k, v) in rc.iter().enumerate() { w.extend(["480680017fff8000".into(), v.to_string(), format!("4002{:04x}7ffd7fff", 0x8000 + k)]); }
    w.extend(["482680017ffc8000".into(), format!("{:x}", outs), "482680017ffd8000".into(), format!("{:x}", rc.len()), "208b7fff7fff7ffe".into()]);
    let w: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
    program(&w, "\"output\",\"range_check\"")
}
'''
seed("parallel-zerofier", "C02",
     "the build with the parallel feature",
     "the parallel evaluator pairs each point with the wrong inverse of the zerofier",
     [(E, "zerofier_evaluations[i % zerofier_evaluations.len()].clone()", "zerofier_evaluations[i & (zerofier_evaluations.len() / 2)].clone()")],
     r'''fn main() {
    let (t, p) = fib(16);
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()), "the parallel build proves something else");
}
''')
SEEDS["parallel-zerofier"]["features"] = "parallel"
seed("z-in-domain", "C07",
     "a challenge that falls on the evaluation domain (likely only in a small field)",
     "the out-of-domain point is only kept out of the trace domain",
     [("src/starks/transcript.rs", "        if !lde_roots_of_unity_coset.iter().any(|x| x == &value)\n            && !trace_roots_of_unity.iter().any(|x| x == &value)\n", "        if lde_roots_of_unity_coset.is_empty()\n            || !trace_roots_of_unity.iter().any(|x| x == &value)\n")],
     r'''struct Fixed(Vec<u64>);
impl Transcript for Fixed {
    fn append(&mut self, _: &[u8]) {}
    fn challenge(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[24..].copy_from_slice(&self.0.remove(0).to_be_bytes());
        b
    }
}
fn main() {
    use lambdaworks_stark::starks::transcript::sample_z_ood;
    let f = |x: &[u64]| x.iter().map(|v| FE::from(*v)).collect::<Vec<FE>>();
    for (draws, want) in [(vec![9, 8], 9u64), (vec![5, 3, 7, 11], 11), (vec![3, 3, 4], 4), (vec![7, 2], 2)] {
        assert_eq!(sample_z_ood(&f(&[3, 7]), &f(&[5, 6]), &mut Fixed(draws)), FE::from(want));
    }
}
''')
seed("nonce-absorbed-half", "C07",
     "a nonce whose high half differs, with no grinding demanded",
     "only the low half of the nonce is absorbed, by the prover and by the verifier",
     [(V, "transcript.append(&nonce.to_be_bytes());", "transcript.append(&nonce.to_be_bytes()[4..]);"),
      (P, "transcript.append(&nonce.to_be_bytes());", "transcript.append(&nonce.to_be_bytes()[4..]);")],
     r'''fn main() {
    let (t, p) = fib(16);
    let o = ProofOptions { grinding_factor: 0, ..opts() };
    let mut proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o));
    for k in [1u64, 32, 40, 63] {
        let mut other = StarkProof::<S>::deserialize(&proof.serialize()).unwrap();
        other.nonce ^= 1 << k;
        assert!(!verify::<S, FibonacciAIR<S>>(&other, &p, &o), "the query positions do not depend on bit {k} of the nonce");
    }
}
''')
seed("three-exempt", "C03",
     "a constraint that exempts two or more steps, violated on the last step before them",
     "prover and verifier both exempt one step too many for constraints with more than one exempt step",
     [("src/starks/traits.rs", "                    .take(*cant_take)\n", "                    .take(*cant_take + *cant_take / 2)\n"),
      ("src/starks/traits.rs", "                (1..=index).fold(", "                (1..=index + index / 2).fold(")],
     r'''fn main() {
    let (t, p) = fib(16);
    assert!(verify::<S, FibonacciAIR<S>>(&prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap(), &p, &opts()));
    for last in [14usize, 15] {
        let mut bad = t.clone();
        for k in last..16 { bad.table[k] = FE::from(77u64); }
        let proof = prove::<S, FibonacciAIR<S>>(&bad, &p, &opts()).unwrap();
        assert!(!verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()), "a trace that leaves the sequence at {last} is accepted");
    }
}
''')
seed("assert-product", "C16",
     "an assert_eq whose result is a product",
     "assertions on products are not enforced",
     [(A, "constraints[ASSERT_EQ] = &curr[F_OPC_AEQ] * (&curr[FRAME_DST] - &curr[FRAME_RES]);",
       "constraints[ASSERT_EQ] =\n        &curr[F_OPC_AEQ] * (&one - &curr[F_RES_MUL]) * (&curr[FRAME_DST] - &curr[FRAME_RES]);")],
     r'''fn main() {
    let (r, m) = direct(&[[1, 5, 5], [3, 6, 5]], &[(1, "480680017fff8000"), (2, "7"), (3, "208b7fff7fff7ffe"), (4, "1"), (5, "7")]);
    let mut p = PublicInputs::from_regs_and_mem(&r, &m, 3, &MemorySegmentMap::new());
    p.range_check_min = Some(0);
    p.range_check_max = Some(1);
    let air = CairoAIR::new(16, &p, &opts());
    let ch = CairoRAPChallenges { alpha_memory: FE::from(3u64), z_memory: FE::from(5u64), z_range_check: FE::from(7u64) };
    for res_flag in [5usize, 6] {
        let mut row = vec![FE::zero(); 104];
        row[14] = FE::one();
        row[res_flag] = FE::one();
        row[FRAME_SELECTOR] = FE::one();
        row[FRAME_DST] = FE::from(9u64);
        assert!(air.compute_transition(&Frame::new(row, 52), &ch)[30] != FE::zero(), "an assertion is not enforced");
    }
}
''')
seed("final-ap-builtin", "C18",
     "a run with the range-check builtin, claimed to end with another ap",
     "the final ap is not bound in the range-check layout",
     [(A, "        let constraints = vec![\n            initial_pc,\n            initial_ap,\n            final_pc,\n            final_ap,\n", "        let mut constraints = vec![\n            initial_pc,\n            initial_ap,\n            final_pc,\n"),
      (A, "            range_check_max,\n        ];\n\n        Boundary", "            range_check_max,\n        ];\n        if builtin_offset > 0 {\n            constraints.push(final_ap);\n        }\n\n        Boundary")],
     RCPROG + r'''fn main() {
    let (t, p) = generate_prover_args(&rcprog(0, &["5"]), &CairoVersion::V0, &None).unwrap();
    let proof = generate_cairo_proof(&t, &p, &opts()).unwrap();
    assert!(verify_cairo_proof(&proof, &p, &opts()));
    let mut q = p.clone();
    q.ap_final = q.ap_final + FE::one();
    assert!(!verify_cairo_proof(&proof, &q, &opts()), "another final ap is accepted");
}
''')
seed("limit-max-free", "C17",
     "a claim whose upper offset limit is below an offset of the run",
     "the upper limit of the offsets is not bound",
     [(A, "            range_check_min,\n            range_check_max,\n        ];", "            range_check_min,\n        ];"),
      (A, "        let range_check_max = BoundaryConstraint::new(\n            RANGE_CHECK_COL_3 - builtin_offset,\n            final_index,\n            FieldElement::from(self.pub_inputs.range_check_max.unwrap() as u64),\n        );\n", "")],
     RCPROG + r'''fn main() {
    let (t, p) = generate_prover_args(&rcprog(0, &["5"]), &CairoVersion::V0, &None).unwrap();
    let proof = generate_cairo_proof(&t, &p, &opts()).unwrap();
    assert!(verify_cairo_proof(&proof, &p, &opts()));
    for d in [1i32, -1] {
        let mut q = p.clone();
        q.range_check_max = Some((p.range_check_max.unwrap() as i32 + d) as u16);
        assert!(!verify_cairo_proof(&proof, &q, &opts()), "an offset beyond the limit is accepted");
    }
}
''')
seed("early-output-file", "C21",
     "a prove command whose run fails, with an output file that exists already",
     "the output file is created before the program is proven",
     [("src/main.rs", "            let mut bytes = vec![];\n            let proof_bytes", "            let proof_bytes"),
      ("src/main.rs", "            let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {\n                return;\n            };\n\n            let proof_bytes",
       "            let mut bytes = vec![];\n            let Ok(()) = std::fs::write(output_path, &bytes) else {\n                println!(\"Error writing proof to file: {}\", output_path.display());\n                return;\n            };\n            let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {\n                return;\n            };\n\n            let proof_bytes")],
     r'''mod cli { include!("@REPO@/src/main.rs"); pub fn run() { main() } }
fn main() {
    if std::env::var("DEMO_CHILD").is_ok() { return cli::run(); }
    let tmp = std::env::var("DEMO_TMP").unwrap();
    let (input, output) = (format!("{tmp}/none.json"), format!("{tmp}/out.proof"));
    std::fs::write(&input, b"{}").unwrap();
    std::fs::write(&output, b"precious").unwrap();
    let r = std::process::Command::new(std::env::current_exe().unwrap()).env("DEMO_CHILD", "1")
        .args(["prove", &input, &output]).output().unwrap();
    assert!(r.status.success());
    assert_eq!(std::fs::read(&output).unwrap(), b"precious", "a failed proving run changed the output file");
}
''')
seed("validate-max-exempt", "C22",
     "constraints with different exemptions, the one with fewer violated on a step only the other exempts",
     "every constraint is given the largest exemption",
     [("src/starks/debug.rs", "        .map(|(trace_steps, exemptions)| trace_steps - exemptions)", "        .map(|(trace_steps, exemptions)| {\n            trace_steps - transition_exemptions.iter().max().unwrap_or(exemptions)\n        })")],
     TWO + r'''fn main() {
    use lambdaworks_stark::starks::{debug::validate_trace, domain::Domain};
    let one = FE::one();
    let f = fibonacci_trace([one.clone(), one.clone()], 16).cols()[0].clone();
    let air = Two::new(16, &one, &opts());
    let ok = |d: Vec<FE>| validate_trace(&air, &TraceTable::new_from_cols(&[f.clone(), d]).compute_trace_polys(), &Domain::new(&air), &());
    assert!(ok(doubling(16)));
    let mut d = doubling(16);
    d[15] = FE::zero();
    assert!(!ok(d), "a violated step is called valid");
}
''')
seed("steps-adjacent", "C23",
     "boundary constraints on the same step that are not listed next to each other",
     "steps are reported once per run of equal steps",
     [("src/starks/constraints/boundary.rs", "            .unique_by(|elem| elem.step)\n", "            .dedup_by(|a, b| a.step == b.step)\n")],
     r'''fn main() {
    let c = |col, step| BoundaryConstraint::new(col, step, FE::one());
    let b = BoundaryConstraints::from_constraints(vec![c(0, 4), c(1, 4), c(0, 2), c(1, 2), c(2, 4)]);
    assert_eq!(b.steps_for_boundary(), vec![4, 2]);
    assert_eq!(b.cols_for_boundary(), vec![0, 1, 2]);
}
''')
seed("dummies-program", "C15",
     "a run with output cells whose padding leaves no spare rows",
     "dummy accesses are only added for the program, not for the output cells",
     [(X, "add_pub_memory_dummy_accesses(&mut main_trace, public_input.public_memory.len());", "add_pub_memory_dummy_accesses(&mut main_trace, program_len);")],
     RCPROG + r'''fn main() {
    for outs in 0..24u64 {
        let prog = rcprog(outs as usize, &["5"]);
        let (_, plain) = generate_prover_args(&prog, &CairoVersion::V0, &None).unwrap();
        let rc = plain.memory_segments[&MemorySegment::RangeCheck].clone();
        let (t, p) = generate_prover_args(&prog, &CairoVersion::V0, &Some(rc.start - outs..rc.start)).unwrap();
        // the public memory takes the place of the last accesses, which must be dummies
        let cells: Vec<FE> = (0..t.n_rows()).flat_map(|k| ADDR_COLUMNS.map(|c| t.get(k, c))).collect();
        assert!(cells[cells.len() - p.public_memory.len()..].iter().all(|a| a == &FE::zero()), "{outs} output cells: not enough dummy accesses");
    }
}
''')
seed("nonce-default", "C10",
     "an encoding that lost its last eight bytes, of a proof whose nonce is zero",
     "a missing nonce is taken to be zero",
     [("src/starks/proof/stark.rs", "            .checked_sub(core::mem::size_of::<u64>())\n            .ok_or(DeserializationError::InvalidAmountOfBytes)?;\n", "            .saturating_sub(core::mem::size_of::<u64>());\n"),
      ("src/starks/proof/stark.rs", "            bytes\n                .get(start_nonce..)\n                .ok_or(DeserializationError::InvalidAmountOfBytes)?\n                .try_into()", "            bytes\n                .get(start_nonce..)\n                .filter(|nonce| !nonce.is_empty())\n                .unwrap_or(&[0; 8])\n                .try_into()")],
     r'''fn main() {
    let (t, p) = fib(16);
    let o = ProofOptions { grinding_factor: 0, ..opts() };
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o).unwrap();
    assert_eq!(proof.nonce, 0);
    let bytes = proof.serialize();
    for n in 1..40 {
        let cut = StarkProof::<S>::deserialize(&bytes[..bytes.len() - n]);
        assert!(cut.is_err() || !verify::<S, FibonacciAIR<S>>(&cut.unwrap(), &p, &o), "a truncated proof is accepted");
    }
}
''')
seed("partial-rows", "C19",
     "a trace dump cut off between two words of a record",
     "a partial record at the end of a trace dump is dropped silently",
     [("src/cairo/register_states.rs", "        if bytes.len() % ROW_SIZE != 0 {", "        if bytes.len() % 8 != 0 || bytes.len() < ROW_SIZE {")],
     r'''fn main() {
    for n in 1..120usize {
        assert_eq!(RegisterStates::from_bytes_le(&vec![1u8; n]).is_ok(), n % 24 == 0, "{n} bytes");
    }
}
''')
seed("entrypoint-ignored", "C20",
     "a caller that asks for an entry point other than main",
     "Cairo 0 programs always run from main",
     [("src/cairo/runner/run.rs", "            let cairo_run_config = cairo_run::CairoRunConfig {\n                entrypoint,", "            let cairo_run_config = cairo_run::CairoRunConfig {\n                entrypoint: entrypoint.rsplit('.').nth(1).unwrap_or(\"main\"),")],
     r'''fn main() {
    let p = String::from_utf8(program(&["480680017fff8000", "7", "208b7fff7fff7ffe", "480680017fff8000", "9", "208b7fff7fff7ffe"], "")).unwrap()
        .replace("\"__main__.main\":{\"pc\":0,\"type\":\"function\"}", "\"__main__.main\":{\"pc\":0,\"type\":\"function\"},\"__main__.other\":{\"pc\":3,\"type\":\"function\"}");
    for (entry, pc) in [(None, 1u64), (Some("main"), 1), (Some("other"), 4)] {
        let (r, _, _, _) = run_program(entry, CairoLayout::Plain, p.as_bytes(), &CairoVersion::V0).unwrap();
        assert_eq!(r.rows[0].pc, pc, "entry point {entry:?}");
    }
}
''')
seed("limit-zero", "C11",
     "a statement whose lower offset limit is zero",
     "a lower limit of zero is written as if there were none",
     [(A, "        if let Some(range_check_min) = self.range_check_min {", "        if let Some(range_check_min) = self.range_check_min.filter(|min| *min > 0) {")],
     r'''fn main() {
    let (r, m) = direct(&[[1, 5, 5], [3, 6, 5]], &[(1, "480680017fff8000"), (2, "7"), (3, "208b7fff7fff7ffe"), (4, "1"), (5, "7")]);
    let mut p = PublicInputs::from_regs_and_mem(&r, &m, 3, &MemorySegmentMap::new());
    for (a, b) in [(None, None), (Some(0), Some(0)), (Some(1), None), (None, Some(65535)), (Some(0), Some(65535))] {
        (p.range_check_min, p.range_check_max) = (a, b);
        let q = PublicInputs::deserialize(&p.serialize()).unwrap();
        assert_eq!((q.range_check_min, q.range_check_max), (a, b));
    }
}
''')
seed("seven-limbs", "C13",
     "a range-checked value of 2^112 or more",
     "the top limb of a range-checked value is dropped",
     [(X, "        rc_base_types = rc_base_types.iter().map(|&x| x >> 16).collect();\n", "        rc_base_types = rc_base_types\n            .iter()\n            .map(|&x| (x >> 16) & UnsignedInteger::from_hex(\"FFFFFFFFFFFFFFFFFFFFFFFF\").unwrap())\n            .collect();\n")],
     RCPROG + r'''fn main() {
    for v in ["5", "ffffffffffffffffffffffffffff", "10000000000000000000000000000", "ffffffffffffffffffffffffffffffff"] {
        let (t, _) = generate_prover_args(&rcprog(0, &[v]), &CairoVersion::V0, &None).unwrap();
        let sum = (0..8).rev().fold(FE::zero(), |a, k| a * FE::from(65536u64) + t.get(0, RC_0 + k));
        assert_eq!(sum, FE::from_hex(v).unwrap());
        assert_eq!(t.get(0, RC_VALUE), sum);
    }
}
''')
seed("last-sym-path", "C05",
     "a proof whose last FRI layer has a wrong authentication path for the symmetric value",
     "the last layer's symmetric opening is not authenticated",
     [(V, "result & (v == proof.fri_last_value) & auth_point & auth_sym", "result & (v == proof.fri_last_value) & auth_point")],
     r'''fn main() {
    let (t, p) = fib(32);
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()));
    for k in 0..5 {
        let mut bad = StarkProof::<S>::deserialize(&proof.serialize()).unwrap();
        bad.query_list[1].layers_auth_paths_sym[k].merkle_path[0][7] ^= 4;
        assert!(!verify::<S, FibonacciAIR<S>>(&bad, &p, &opts()), "a wrong path in layer {k} is accepted");
    }
}
''')
seed("nonce-from-one", "C08",
     "a transcript challenge for which the nonce zero already does",
     "the search for the nonce starts at one",
     [("src/starks/grinding.rs", "    (0..u64::MAX).find(", "    (1..u64::MAX).find(")],
     r'''use sha3::{Digest, Keccak256};
fn main() {
    for k in 0..32u64 {
        let ch: [u8; 32] = Keccak256::digest(k.to_be_bytes()).into();
        for g in 0..6u8 {
            let n = generate_nonce_with_grinding(&ch, g).unwrap();
            for m in 0..n { assert!(hash_transcript_with_int_and_get_leading_zeros(&ch, m) < g, "{m} is smaller than {n}"); }
        }
    }
}
''')
seed("far-frame", "C23",
     "a frame offset whose step on the evaluation domain is 256 or more",
     "the step of a frame row is computed in eight bits",
     [("src/starks/frame.rs", ".get_row((step + (frame_row_idx * blowup as usize)) % trace_steps)", ".get_row((step + (*frame_row_idx as u8).wrapping_mul(blowup) as usize) % trace_steps)")],
     r'''fn main() {
    let t = TraceTable::<S>::new((0..512u64).map(FE::from).collect(), 1);
    for (offset, blowup) in [(1usize, 4u8), (63, 4), (64, 4), (3, 128), (100, 2), (200, 2)] {
        let f = Frame::read_from_trace(&t, 5, blowup, &[0, offset]);
        assert_eq!(f.get_row(1)[0], FE::from((5 + offset as u64 * blowup as u64) % 512));
    }
}
''')
seed("repeated-position", "C05",
     "two queries that fall on one position",
     "the opening of a position that was opened before is not checked again",
     [(V, """            |mut result, (i, ((iota_n, deep_poly_opening), denom_inv))| {
""", """            |mut result, (i, ((iota_n, deep_poly_opening), denom_inv))| {
                if challenges.iotas[..i].contains(iota_n) {
                    return result;
                }
""")],
     r'''fn main() {
    let (t, p) = fib(4);
    let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: 9, coset_offset: 3, grinding_factor: 1 };
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o));
    for q in 0..9 {
        let mut bad = StarkProof::<S>::deserialize(&proof.serialize()).unwrap();
        let x = &mut bad.deep_poly_openings[q].lde_trace_merkle_proofs[0].merkle_path[0];
        x[3] ^= 1;
        assert!(!verify::<S, FibonacciAIR<S>>(&bad, &p, &o), "opening {q} is not bound");
    }
}
''')
seed("zero-opening", "C05",
     "an opened row of the trace that is all zeros",
     "rows of zeros are taken for padding, whose openings are not authenticated",
     [(V, """                        acc & merkle_proof.verify::<BatchedMerkleTreeBackend<F>>(
                            merkle_root,
                            *iota_n,
                            &evaluation,
                        )""", """                        let padding = evaluation.iter().all(|e| *e == FieldElement::zero());
                        acc & (padding
                            || merkle_proof.verify::<BatchedMerkleTreeBackend<F>>(
                                merkle_root,
                                *iota_n,
                                &evaluation,
                            ))""")],
     r'''fn main() {
    for s in [1u64, 0] {
        let t = fibonacci_trace([FE::from(s), FE::from(s)], 8);
        let p = FibonacciPublicInputs { a0: FE::from(s), a1: FE::from(s) };
        let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &opts()).unwrap();
        assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &opts()));
        for q in 0..3 {
            let mut bad = StarkProof::<S>::deserialize(&proof.serialize()).unwrap();
            bad.deep_poly_openings[q].lde_trace_merkle_proofs[0].merkle_path[1][9] ^= 1;
            assert!(!verify::<S, FibonacciAIR<S>>(&bad, &p, &opts()), "opening {q} is not bound");
        }
    }
}
''')
seed("signed-work", "C08",
     "a verifier whose grinding factor is 128 or more",
     "the work is compared in signed bytes, so the largest factors demand nothing",
     [(V, "if challenges.leading_zeros_count < grinding_factor", "if (challenges.leading_zeros_count as i8) < grinding_factor as i8")],
     r'''fn main() {
    let (t, p) = fib(8);
    let o = |g| ProofOptions { grinding_factor: g, ..opts() };
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o(2)).unwrap();
    for g in 0..=2 { assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o(g))); }
    for g in 40..=255 { assert!(!verify::<S, FibonacciAIR<S>>(&proof, &p, &o(g)), "{g} bits of work"); }
}
''')
seed("wide-offset", "C01",
     "a coset offset of 2^32 or more",
     "the domain is built from the low half of the coset offset",
     [("src/starks/domain.rs", "let coset_offset = FieldElement::<F>::from(air.options().coset_offset);", "let coset_offset = FieldElement::<F>::from(air.options().coset_offset as u32 as u64);")],
     r'''fn main() {
    let (t, p) = fib(8);
    for coset_offset in [3, 7, 0xffff_ffff, 0x1_0000_0003, u64::MAX] {
        let o = ProofOptions { coset_offset, ..opts() };
        let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o).unwrap();
        assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o), "offset {coset_offset}");
    }
}
''')
seed("many-queries", "C01",
     "options with more than 255 queries",
     "the prover answers at most 255 queries",
     [("src/starks/fri/mod.rs", "let number_of_queries = air.options().fri_number_of_queries;", "let number_of_queries = air.options().fri_number_of_queries.min(u8::MAX as usize);")],
     r'''fn main() {
    let (t, p) = fib(4);
    for n in [1, 40, 255, 256, 300] {
        let o = ProofOptions { fri_number_of_queries: n, ..opts() };
        let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o).unwrap();
        assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o), "{n} queries");
    }
}
''')
seed("wide-gap", "C14",
     "a gap of 512 or more in the accessed addresses",
     "wide gaps in the accessed addresses are taken for separate segments and stay open",
     [("src/cairo/execution_trace.rs", "            && addr_diff != FE::zero()\n", "            && addr_diff != FE::zero()\n            && addr_diff.representative() < 512_u64.into()\n")],
     r'''fn main() {
    for far in [4u64, 100, 600, 2000] {
        // [ap] = [fp + far]
        let word = format!("400a{:04x}7fff8000", 0x8000 + far);
        let (r, m) = direct(&[[1, 5, 4]], &[(1, &word), (3, "b"), (5, "7"), (4 + far, "7")]);
        let mut p = PublicInputs::from_regs_and_mem(&r, &m, 1, &MemorySegmentMap::new());
        let t = build_main_trace(&r, &m, &mut p);
        let mut seen = std::collections::HashSet::new();
        for c in ADDR_COLUMNS { for k in 0..t.n_rows() { seen.insert(t.get(k, c).to_bytes_be()); } }
        for a in 2..=4 + far { assert!(seen.contains(&FE::from(a).to_bytes_be()), "address {a} is missing"); }
    }
}
''')
seed("last-coefficient", "C24",
     "a polynomial that the FRI layers do not exhaust",
     "the final value of the commit phase is the last polynomial's leading coefficient instead of its constant term",
     [("src/starks/fri/mod.rs", "        .get(0)\n", "        .last()\n")],
     r'''use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::fri::fri_commit_phase;
use lambdaworks_stark::starks::transcript::transcript_to_field;
fn main() {
    for n in [1usize, 2, 3, 8, 13] {
        let c: Vec<FE> = (0..n as u64).map(|k| FE::from(3 * k + 5)).collect();
        let (last, layers) = fri_commit_phase(1, Polynomial::new(&c), &mut DefaultTranscript::new(), &FE::from(3u64), 32);
        let mut t = DefaultTranscript::new();
        t.append(&layers[0].merkle_tree.root);
        let zeta: FE = transcript_to_field(&mut t);
        let want = if n > 1 { &c[0] + zeta * &c[1] } else { c[0].clone() };
        assert!(last == want, "{n} coefficients");
    }
}
''')
seed("long-trace-file", "C19",
     "a trace dump of more than 65535 records",
     "the number of records of a trace dump is kept in sixteen bits",
     [("src/cairo/register_states.rs", "let num_rows = bytes.len() / ROW_SIZE;", "let num_rows = (bytes.len() / ROW_SIZE) as u16 as usize;")],
     r'''fn main() {
    for n in [0usize, 1, 1000, 65535, 65536, 65540] {
        let b: Vec<u8> = (0..n as u64 * 3).flat_map(|k| k.to_le_bytes()).collect();
        let r = RegisterStates::from_bytes_le(&b).unwrap();
        assert_eq!(r.steps(), n);
        assert!(n == 0 || r.rows[n - 1].pc == 3 * n as u64 - 1);
    }
}
''')
seed("public-memory-power", "C15",
     "a run with 256 or more public memory cells",
     "the power in the memory permutation's final value is taken to the low byte of the number of public cells",
     [("src/cairo/air.rs", ".pow(self.pub_inputs.public_memory.len())", ".pow(self.pub_inputs.public_memory.len() as u8 as u64)")],
     r'''fn main() {
    for out in [1u64, 60, 300] {
        // [ap] = [fp + 1], and output cells the run does not touch
        let mut cells = vec![(1, "400a80017fff8000".to_string()), (3, "b".to_string()), (5, "7".to_string())];
        cells.extend((6..6 + out).map(|a| (a, format!("{:x}", 3 * a))));
        let cells: Vec<(u64, &str)> = cells.iter().map(|(a, v)| (*a, v.as_str())).collect();
        let (r, m) = direct(&[[1, 5, 4]], &cells);
        let mut p = PublicInputs::from_regs_and_mem(&r, &m, 1, &MemorySegmentMap::from([(MemorySegment::Output, 6..6 + out)]));
        let t = build_main_trace(&r, &m, &mut p);
        let proof = prove::<S, CairoAIR>(&t, &p, &opts()).unwrap();
        assert!(verify::<S, CairoAIR>(&proof, &p, &opts()), "{out} output cells");
    }
}
''')
seed("work-shift", "C06",
     "a verifier whose grinding factor is 64 or more",
     "the work is compared as powers of two, which overflow for the largest factors",
     [(V, "if challenges.leading_zeros_count < grinding_factor", "if (1u64 << challenges.leading_zeros_count) < (1u64 << grinding_factor)")],
     r'''fn main() {
    let (t, p) = fib(8);
    let o = |g| ProofOptions { grinding_factor: g, ..opts() };
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o(2)).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o(2)));
    for g in 40..=255 { assert!(!verify::<S, FibonacciAIR<S>>(&proof, &p, &o(g)), "{g} bits of work"); }
}
''')
seed("late-query", "C04",
     "damage to the FRI opening of the 33rd query or a later one",
     "the FRI layers of the first 32 queries only are checked",
     [(V, "        .zip(evaluation_point_inverse)\n        .fold(true,", "        .zip(evaluation_point_inverse)\n        .take(32)\n        .fold(true,")],
     r'''fn main() {
    let (t, p) = fib(64);
    let o = ProofOptions { fri_number_of_queries: 40, ..opts() };
    let proof = prove::<S, FibonacciAIR<S>>(&t, &p, &o).unwrap();
    assert!(verify::<S, FibonacciAIR<S>>(&proof, &p, &o));
    for q in [0, 20, 31, 32, 39] {
        let mut bad = StarkProof::<S>::deserialize(&proof.serialize()).unwrap();
        bad.query_list[q].layers_evaluations_sym[1] = &bad.query_list[q].layers_evaluations_sym[1] + FE::one();
        assert!(!verify::<S, FibonacciAIR<S>>(&bad, &p, &o), "query {q} is not checked");
    }
}
''')
seed("high-stack", "C13",
     "a run whose allocation pointer is 2^32 or more",
     "the ap column keeps the low half of the pointer",
     [("src/cairo/execution_trace.rs", "|t| FE::from(t.ap)", "|t| FE::from(t.ap & u32::MAX as u64)")],
     r'''fn main() {
    for top in [5u64, 0xffff_ffff, 0x1_0000_0000, 1 << 50] {
        // [ap] = [fp + 1]
        let (r, m) = direct(&[[1, top, 4]], &[(1, "400a80017fff8000"), (3, "b"), (5, "7"), (top, "7")]);
        let p = PublicInputs::from_regs_and_mem(&r, &m, 1, &MemorySegmentMap::new());
        let t = build_cairo_execution_trace(&r, &m, &p);
        assert!(t.get(0, FRAME_AP) == FE::from(top), "ap {top}");
    }
}
''')
seed("validate-256", "C22",
     "a trace of more than 256 rows that breaks a constraint past row 256",
     "trace validation walks at most 256 rows",
     [("src/starks/debug.rs", "for step in 0..trace.n_rows() {", "for step in 0..trace.n_rows().min(256) {")],
     r'''use lambdaworks_stark::starks::debug::validate_trace;
use lambdaworks_stark::starks::domain::Domain;
fn main() {
    let (t, p) = fib(512);
    let o = opts();
    let air = FibonacciAIR::<S>::new(512, &p, &o);
    let valid = |t: &TraceTable<S>| validate_trace(&air, &t.compute_trace_polys(), &Domain::new(&air), &());
    assert!(valid(&t));
    for k in [2usize, 100, 255, 300, 511] {
        let mut bad = t.clone();
        bad.table[k] = &bad.table[k] + FE::one();
        assert!(!valid(&bad), "row {k}");
    }
}
''')
seed("public-memory-count", "C11",
     "public inputs of 65536 or more public memory cells",
     "the written number of public memory cells is cut to sixteen bits",
     [("src/cairo/air.rs", "let public_memory_length = self.public_memory.len();", "let public_memory_length = self.public_memory.len() & 0xffff;")],
     r'''fn main() {
    let (r, m) = direct(&[[1, 5, 4]], &[(1, "400a80017fff8000"), (3, "b"), (5, "7")]);
    for n in [1u64, 300, 65535, 65536] {
        let mut p = PublicInputs::from_regs_and_mem(&r, &m, 1, &MemorySegmentMap::new());
        p.range_check_min = Some(0);
        p.range_check_max = Some(9);
        p.public_memory = (1..=n).map(|a| (FE::from(a), FE::from(3 * a))).collect();
        let q = PublicInputs::deserialize(&p.serialize()).unwrap();
        assert!(q.public_memory == p.public_memory, "{n} cells");
    }
}
''')
seed("step-count", "C14",
     "a run of 65536 or more steps",
     "the number of steps in the public inputs is cut to sixteen bits",
     [("src/cairo/air.rs", "num_steps: register_states.steps(),", "num_steps: register_states.steps() as u16 as usize,")],
     r'''fn main() {
    let (r, m) = direct(&[[1, 5, 4]], &[(1, "400a80017fff8000"), (3, "b"), (5, "7")]);
    for n in [1usize, 1000, 65535, 65536, 70000] {
        let r = RegisterStates { rows: vec![r.rows[0].clone(); n] };
        let p = PublicInputs::from_regs_and_mem(&r, &m, 1, &MemorySegmentMap::new());
        assert_eq!(p.num_steps, n);
    }
}
''')
seed("late-constraint", "C03",
     "a statement of more than 64 transition constraints, of which a late one is violated",
     "prover and verifier both combine the first 64 transition constraints only",
     [(V, "        .zip(&challenges.transition_coeffs)", "        .zip(&challenges.transition_coeffs)\n        .take(64)"),
      ("src/starks/constraints/evaluator.rs", "                    .zip(alpha_and_beta_transition_coefficients)", "                    .zip(alpha_and_beta_transition_coefficients)\n                    .take(64)")],
     r'''/// Every column counts upwards.
#[derive(Clone)]
struct Counters { context: AirContext, len: usize }
impl AIR for Counters {
    type Field = S;
    type RAPChallenges = ();
    type PublicInputs = ();
    fn new(len: usize, _: &(), o: &ProofOptions) -> Self {
        Counters { len, context: AirContext {
            proof_options: o.clone(), trace_columns: 70, transition_degrees: vec![1; 70], transition_exemptions: vec![1; 70],
            transition_offsets: vec![0, 1], num_transition_constraints: 70, num_transition_exemptions: 1,
        } }
    }
    fn composition_poly_degree_bound(&self) -> usize { self.len }
    fn build_auxiliary_trace(&self, _: &TraceTable<S>, _: &()) -> TraceTable<S> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<S>, _: &()) -> Vec<FE> {
        (0..70).map(|k| &f.get_row(1)[k] - &f.get_row(0)[k] - FE::one()).collect()
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<S> {
        BoundaryConstraints::from_constraints(vec![BoundaryConstraint::new_simple(0, FE::zero())])
    }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { &self.context }
    fn trace_length(&self) -> usize { self.len }
    fn pub_inputs(&self) -> &() { &() }
}
fn main() {
    let t = TraceTable::new((0..8u64).flat_map(|r| (0..70u64).map(move |k| FE::from(r * (1 + k * 0) + k))).collect(), 70);
    let ok = |t: &TraceTable<S>| verify::<S, Counters>(&prove::<S, Counters>(t, &(), &opts()).unwrap(), &(), &opts());
    assert!(ok(&t));
    for k in [1usize, 40, 63, 64, 69] {
        let mut bad = t.clone();
        bad.table[3 * 70 + k] = &bad.table[3 * 70 + k] + FE::one();
        assert!(!ok(&bad), "constraint {k} may be broken");
    }
}
''')

import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S="src/starks/"; C="src/cairo/"
p("C01","Completeness of the generic STARK prover and verifier",
 "For every arithmetization, every trace of power-of-two length that satisfies its transition and boundary constraints, and every valid combination of proof options, proving succeeds and verifying the resulting proof with the same statement and options returns true. This holds for the shipped example arithmetizations, with the traces their own generators make, and for any other with other column counts, frame offsets (the first row of a frame being the current one), exemptions, constraint degrees, auxiliary (randomized) columns, or no transition constraints at all.",
 ["inputs","configurations"],"all satisfying traces, arithmetizations, fields, blowup factors, query counts, coset offsets and grinding factors",
 "The repository's tests run one trace per example arithmetization with one option set; the only test that runs in this environment concerns one grinding value.",
 [S+"prover.rs",S+"verifier.rs",S+"traits.rs",S+"domain.rs",S+"constraints/evaluator.rs",S+"constraints/boundary.rs",S+"fri/mod.rs",S+"fri/fri_commitment.rs",S+"fri/fri_functions.rs",S+"example"],
 [("prove",S+"prover.rs"),("verify",S+"verifier.rs")],obs=["prove / verify return values"])
p("C02","A proof is exactly what the protocol determines from trace and options",
 "For every satisfying trace the honest prover's output is fixed by the protocol: the commitments are Merkle roots of the trace (and auxiliary) columns and of the even and odd parts of the composition polynomial evaluated over the shifted domain, the out-of-domain values are the true evaluations, the FRI layers are the successive folds of the DEEP composition polynomial, the openings are the authentication paths at the sampled positions, and the nonce is the first one that meets the grinding condition. Proving the same statement twice, or with the parallel build, gives byte-for-byte the same proof.",
 ["inputs","configurations","schedules"],"all statements and options, sequential and parallel builds, repeated runs",
 "Tests compare no proof content with an independent computation except two Fiat-Shamir vectors on one Fibonacci instance behind a feature flag; nothing compares the sequential with the parallel prover.",
 [S+"prover.rs",S+"trace.rs",S+"frame.rs",S+"constraints/evaluator.rs",S+"fri/mod.rs",S+"domain.rs",S+"grinding.rs"],
 [("rounds 1 to 4 of the prover",S+"prover.rs"),("FRI commit and query phases",S+"fri/mod.rs")],obs=["serialized proof"])
p("C03","The verifier accepts only if the constraints hold at the out-of-domain point",
 "The verifier accepts only when the composition polynomial value claimed at the out-of-domain point equals the random combination, with the transcript's coefficients, of every boundary and every transition constraint of the statement, each divided by its own zerofier and adjusted to the degree bound, evaluated on the claimed trace values. Consequently no proof whose trace violates any boundary or transition constraint, and no proof checked against a different statement, is accepted.",
 ["inputs","fault_sequences"],"all arithmetizations, cheating provers (wrong trace, low-degree but wrong composition polynomial, altered out-of-domain values), and claimed statements",
 "The tests only ever verify honest proofs of true statements, apart from a couple of whole-statement mismatches for Cairo.",
 [S+"verifier.rs",S+"constraints/boundary.rs",S+"constraints/evaluator.rs",S+"traits.rs",S+"example"],
 [("composition polynomial consistency check",S+"verifier.rs step 2"),("boundary zerofiers and transition divisors",S+"constraints/boundary.rs, traits.rs")],obs=["verify return value"])
p("C04","The verifier accepts only words that fold consistently (FRI soundness)",
 "The verifier accepts only if, at every queried position and through every FRI layer, the committed values fold with the transcript's challenges to the value committed in the next layer and finally to the claimed constant, starting from the DEEP composition value recomputed from the opened trace and composition values; the number of layers and queries is the one fixed by the trace length and the options. A committed word that is far from the required low degree, or that is disconnected from the opened values at any layer, is rejected.",
 ["inputs","fault_sequences"],"all layer indices, query positions, switch points between committed words, layer and query counts",
 "No test presents a dishonest FRI commitment or decommitment.",
 [S+"verifier.rs",S+"fri/mod.rs",S+"fri/fri_functions.rs"],
 [("query and FRI verification",S+"verifier.rs step 3"),("DEEP reconstruction",S+"verifier.rs step 4 / 3")],obs=["verify return value"])
p("C05","Every opened value is bound to its commitment",
 "The verifier accepts only if each opened trace, auxiliary, composition and FRI-layer value (including the symmetric ones) authenticates against the corresponding committed root at the position drawn from the transcript. Changing any single value, root, path node, or opening a different position makes verification fail.",
 ["inputs","fault_sequences"],"every component of the proof, every query, every layer and tree, every single-site change",
 "Tests never modify a proof.",
 [S+"verifier.rs",S+"prover.rs",S+"fri/fri_decommit.rs"],
 [("Merkle authentication of openings",S+"verifier.rs steps 3 and 4")],obs=["verify return value"])
p("C06","Verification is total: malformed proofs are rejected, never crash",
 "For every proof value that can be represented or decoded, and any statement and options, verification returns false rather than panicking when parts are missing, duplicated, truncated or oversized, when the trace length is not a supported power of two, when the out-of-domain frame has the wrong shape, or when the public inputs are incomplete. A proof that carries fewer queries, layers, openings, roots or authentication data than the statement and options demand is never accepted.",
 ["inputs"],"all shapes of the proof structure",
 "No test feeds the verifier a malformed proof.",
 [S+"verifier.rs",S+"frame.rs",C+"air.rs"],
 [("shape checks before step 1",S+"verifier.rs"),("public-input guard",C+"air.rs verify_cairo_proof")],obs=["verify return value","panics"])
p("C07","Fiat-Shamir: prover and verifier derive every challenge from all prior messages",
 "Prover and verifier run the same transcript: every commitment, out-of-domain value, FRI root, final value and the nonce is absorbed, in protocol order and before any challenge that must depend on it is drawn, and each challenge is the transcript hash reduced in the documented way (field elements uniformly from the low bits, indices modulo the domain size, the out-of-domain point outside the trace and evaluation domains). Therefore changing any absorbed message changes all later challenges.",
 ["inputs","histories"],"all statements, options, numbers of columns, constraints, layers and queries",
 "Two hard-coded vectors of one arithmetization are behind a feature flag that does not build here; honest-proof tests pass even if both sides drop the same message.",
 [S+"transcript.rs",S+"prover.rs",S+"verifier.rs",S+"fri/mod.rs"],
 [("transcript_to_field, transcript_to_usize, sample_z_ood",S+"transcript.rs"),("absorption order",S+"prover.rs, verifier.rs")],obs=["transcript absorb/challenge events","challenge values implied by a proof"])
p("C08","Grinding: the nonce proves the demanded amount of work",
 "The work attributed to a nonce is the number of trailing zero bits of the 64-bit big-endian integer formed by the first eight bytes of the hash of the transcript challenge followed by the nonce in little-endian order. The prover returns the smallest nonce whose work is at least the grinding factor, and the verifier rejects any proof whose nonce has less work than the factor in its own options.",
 ["inputs"],"all challenges, nonces and grinding factors",
 "One test checks one challenge with one factor.",
 [S+"grinding.rs",S+"prover.rs",S+"verifier.rs"],
 [("hash_transcript_with_int_and_get_leading_zeros, generate_nonce_with_grinding",S+"grinding.rs"),("nonce check",S+"verifier.rs step 1")],obs=["nonce returned","verify return value"])
p("C09","Options constructors accept exactly sufficiently secure options",
 "Checked option constructors return the given options unchanged when they reach the requested security level and an error otherwise: an error when the field is too small for the target, and an error when grinding bits plus query bits (per query: log2 of the blowup for the conjectured bound, half of it for the provable one) do not reach the target; they never panic. Every preset level passes its own check and its security never decreases when a stronger level is asked for.",
 ["inputs","configurations"],"all blowup factors, query counts, grinding factors, targets and fields",
 "Tests try four option sets near three presets and never the provable constructor.",
 [S+"proof/options.rs",S+"proof/errors.rs"],
 [("new_with_checked_security, new_with_checked_provable_security, new_secure",S+"proof/options.rs")],obs=["Result of the constructors"])
p("C10","Proof serialization is lossless and decoding is total",
 "Decoding an encoded proof gives back the same proof, so it verifies exactly when the original does, and the encoding is the documented big-endian length-prefixed layout. Decoding any byte string returns a proof or an error and never panics; in particular every proper truncation of an encoding of a proof that loses data yields an error or a proof that is not accepted as the original.",
 ["inputs"],"all proofs (any counts of columns, layers, queries, path lengths) and all byte strings",
 "Property tests exercise a handful of random proofs of fixed shape and none of the malformed inputs.",
 [S+"proof/stark.rs",S+"frame.rs",S+"fri/fri_decommit.rs",S+"utils.rs"],
 [("Serializable/Deserializable implementations",S+"proof/stark.rs, frame.rs, fri/fri_decommit.rs, utils.rs")],obs=["serialize, deserialize"])
p("C11","Public-input serialization is lossless and decoding is total",
 "Decoding encoded public inputs gives back the same registers, range-check limits, memory segments, public memory and step count, whatever values they hold and in whatever order the maps are written. Decoding any byte string returns public inputs or an error and never panics.",
 ["inputs"],"all public inputs and all byte strings",
 "Tests round-trip random public inputs of one shape and never truncated or altered bytes.",
 [C+"air.rs"],
 [("Serializable/Deserializable for PublicInputs",C+"air.rs")],obs=["serialize, deserialize"])
p("C12","Instruction words decode exactly as the Cairo specification says",
 "A 63-bit word decodes to the three signed 16-bit offsets (bias 2^15) and the flag groups dst register, op0 register, op1 source, result logic, pc update, ap update and opcode as defined by the Cairo whitepaper; a word with a flag group outside its defined values is reported as a decoding error that names such a group, and never as another instruction. The flag and offset columns of the trace recombine to the original instruction word.",
 ["inputs"],"all instruction words",
 "Tests decode about twenty hand-written words.",
 [C+"decode/instruction_flags.rs",C+"decode/instruction_offsets.rs"],
 [("CairoInstructionFlags::try_from, InstructionOffsets::new, to_trace_representation",C+"decode")],obs=["decoded flags and offsets"])
p("C13","The execution trace follows the Cairo machine",
 "For every run of the Cairo machine, each row of the execution trace holds that step's decoded flags and offsets, registers, the addresses of dst, op0 and op1 computed from registers and offsets, the memory values at those addresses, the result defined by the instruction, and the derived product columns; consecutive rows are related by the machine's update of pc, ap and fp. With the range-check builtin present, each row also carries the 16-bit limbs of one builtin cell and its value.",
 ["programs","inputs","histories"],"all instruction kinds, operand combinations, register values and programs",
 "Tests check the trace of two tiny programs.",
 [C+"execution_trace.rs",C+"register_states.rs",C+"decode"],
 [("build_cairo_execution_trace and its compute_* helpers",C+"execution_trace.rs")],obs=["execution trace table"])
p("C14","The main trace has no gaps in offsets or addresses, room for public memory",
 "The trace handed to the prover extends the execution trace so that every 16-bit offset value between the minimum and the maximum occurs, every address between the lowest and highest accessed address is accessed except those supplied by the public memory, there is a dummy access cell for each public-memory entry, and the length is a power of two. The public inputs report the true initial and final registers, step count, offset limits, and exactly the program and output cells as public memory.",
 ["programs","inputs"],"all runs, offset ranges, memory gaps, program and output sizes",
 "Tests exercise the helpers on one or two examples each, and the whole on a few fixed programs.",
 [C+"execution_trace.rs",C+"air.rs"],
 [("build_main_trace, get_rc_holes, get_memory_holes, fill_*_holes, add_pub_memory_dummy_accesses, pad_with_last_row",C+"execution_trace.rs"),("PublicInputs::from_regs_and_mem",C+"air.rs")],obs=["main trace table","public inputs"])
p("C15","Every valid Cairo run can be proven and verified",
 "For every terminated run of the Cairo machine whose trace fits the field and the 16-bit offsets, with or without output and range-check segments, building the trace, proving and verifying all succeed and the verifier accepts the proof with that run's public inputs. Every row and every boundary of the built trace satisfies the Cairo constraints for every choice of the verifier's challenges.",
 ["programs","inputs","configurations"],"all instruction kinds, memory layouts, segment combinations, numbers of steps",
 "Tests prove a fixed list of compiled programs, none with both many outputs and memory gaps.",
 [C+"air.rs",C+"execution_trace.rs",S+"prover.rs",S+"verifier.rs"],
 [("CairoAIR",C+"air.rs"),("generate_cairo_proof, verify_cairo_proof",C+"air.rs")],obs=["constraint evaluations","verify return value"])
p("C16","The Cairo constraints reject every step that is not a machine step",
 "Two consecutive trace rows satisfy the Cairo transition constraints only if the first is a correctly decoded instruction with correct operand addresses, products and result, and the second holds the registers the machine moves to; any change of a cell that makes the row relation false is rejected by some constraint. With the range-check builtin, each row's builtin value is a memory cell of the builtin's segment and the weighted sum of eight 16-bit limbs. A proof built from a trace with such a change is not accepted.",
 ["inputs","programs","fault_sequences"],"all instruction kinds and all single- and multi-cell deviations",
 "Tests evaluate the constraints on a few valid rows only; one negative test exists per builtin.",
 [C+"air.rs"],
 [("compute_instr_constraints, compute_operand_constraints, compute_register_constraints, compute_opcode_constraints, enforce_selector",C+"air.rs")],obs=["constraint evaluations","verify return value"])
p("C17","Memory is read-only and contiguous, offsets are 16-bit (permutations)",
 "The auxiliary columns are the sorted memory accesses (with the public memory substituted for the dummy accesses) and sorted offsets, with running products over the challenges; the constraints on them hold exactly when memory is a single-valued function on a contiguous address range that agrees with the public memory, and offsets form a gap-free range between the public limits. A trace where two accesses to one address see different values, a value disagrees with the public memory, or an offset is out of the limits is rejected.",
 ["inputs","fault_sequences"],"all traces, challenges, and inconsistent memories or offsets",
 "One test covers each sorted-column helper on an example; no negative end-to-end test for memory.",
 [C+"air.rs"],
 [("build_auxiliary_trace, add_pub_memory_in_public_input_section, sort_columns_by_memory_address, generate_*_permutation_argument_column",C+"air.rs"),("memory and range-check constraints, boundary constraints",C+"air.rs")],obs=["auxiliary trace","constraint evaluations","verify return value"])
p("C18","A Cairo proof is bound to its public inputs",
 "A proof made for one set of public inputs is rejected when verified with any other: different initial or final pc, ap or fp, different number of steps, different range-check limits, segments that change the layout, or any added, removed or altered program or output cell.",
 ["inputs","fault_sequences"],"every field of the public inputs and every proof",
 "Two tests change one program or output value.",
 [C+"air.rs"],
 [("boundary_constraints, build_auxiliary_trace",C+"air.rs"),("verify_cairo_proof",C+"air.rs")],obs=["verify return value"])
p("C19","Trace and memory files are imported exactly",
 "Importing a relocated trace or memory dump gives exactly the recorded registers (ap, fp, pc as 8-byte little-endian words) and cells (8-byte little-endian address, 32-byte little-endian value); input whose size is not a whole number of records, or an unreadable file, is an error and never a panic or a partial import. Encoding a trace or memory with the runner's writer and importing it again is the identity.",
 ["inputs"],"all byte strings and all traces and memories",
 "Tests import one trace and one memory.",
 [C+"register_states.rs",C+"cairo_mem.rs",C+"errors.rs",C+"runner/vec_writer.rs",C+"runner/file_writer.rs"],
 [("from_bytes_le, from_file",C+"register_states.rs, cairo_mem.rs"),("VecWriter, FileWriter",C+"runner")],obs=["imported structures"])
p("C20","Running a program yields its true trace, layout and segments",
 "Running a compiled Cairo 0 program produces the register states and memory of the machine's run from its entry point, the program length, and the range-check segment actually used, with the layout the caller asked for; the arguments prepared for the prover describe exactly that run, including the caller's output range. A program (of either Cairo version) that cannot be loaded, or a run that fails, is reported as an error.",
 ["programs","inputs","configurations"],"all programs, entry points, layouts and output ranges",
 "Tests run one sample program and compare one trace.",
 [C+"runner/run.rs",C+"cairo_layout.rs"],
 [("run_program, generate_prover_args, create_memory_segment_map",C+"runner/run.rs"),("CairoLayout::as_str",C+"cairo_layout.rs")],obs=["run_program result"])
p("C21","The command-line tool: a stored proof verifies, anything else is reported",
 "A proof written by the prove command verifies with the verify command, in any later session, and so does the stored proof fibonacci_70000.proof; prove-and-verify reports success exactly for programs whose run can be proven. Unknown commands, missing arguments, unreadable files, truncated files and files that no longer hold a valid proof of the stated claim are reported on the output, never as success and never by a crash, and a failed proving run does not create or change the output file.",
 ["histories","inputs","fault_sequences"],"all command sequences and file contents",
 "The command-line tool has no tests.",
 ["src/main.rs",S+"proof/stark.rs",C+"air.rs"],
 [("main",  "src/main.rs")],obs=["standard output","files written"])
p("C22","Trace validation calls a trace valid exactly when it satisfies the constraints",
 "validate_trace, which the prover runs in debug builds and which the repository's own tests and users' tests rely on, returns true exactly when the full trace (main and auxiliary columns) meets every boundary constraint and every transition constraint on every row that is not exempt, for every arithmetization, trace length, challenge and cell.",
 ["inputs"],"all traces whose boundary constraints lie within the trace",
 "Tests run it on one valid Cairo trace; a validator that overlooks a row, a column or a constraint never shows on a valid trace.",
 ["src/starks/debug.rs"],
 [("validate_trace","src/starks/debug.rs")],obs=["return values"])
p("C23","Trace tables, frames, boundary constraints and exemptions are as defined",
 "A trace table built from rows or columns, with columns selected or appended in any sequence, is the same rectangle of cells whether it is read by rows, columns, cells or last row, and its polynomials are the interpolants of its columns over the trace domain; a frame holds the rows at step + offset * blowup, wrapping at the end, and a frame of evaluations the polynomials' values at x * g^offset. Boundary constraints report per column their steps, values and domain points in order and the zerofier that vanishes exactly there; the exemption polynomials vanish exactly on the last points of the trace domain, one per different positive count in order of first appearance (prover), and for every count up to the largest (verifier).",
 ["inputs","histories"],"all tables and sequences of operations on them, frames, constraint lists and exemption counts",
 "The repository tests one zerofier and one frame; arithmetizations written by users depend on all of these.",
 [S+"trace.rs",S+"frame.rs",S+"constraints/boundary.rs",S+"traits.rs"],
 [("TraceTable",S+"trace.rs"),("Frame",S+"frame.rs"),("BoundaryConstraints",S+"constraints/boundary.rs"),("transition_exemptions",S+"traits.rs")],obs=["return values"])
p("C24","Draws, coset evaluation and FRI folding are exact for any polynomial",
 "In any sequence of operations on a transcript: a drawn field element is the challenge's low bits (one fewer than the modulus has), an index its first eight bytes, and an out-of-domain point is drawn again while it is one of the given domain points. A polynomial of any length has its values at offset * w^i, in order, on the evaluation domain it is given; values on a coset interpolate to the polynomial that takes them. The FRI commit phase, for any polynomial, offset and number of layers, absorbs the root of each layer's values, draws zeta, folds p(x) = e(x^2) + x o(x^2) to e + zeta o on the squared coset of half the size, and absorbs the constant coefficient of the last fold; the query phase opens every layer at each drawn position and at its symmetric one.",
 ["inputs","histories"],"all polynomials, cosets, layer counts and orders of operations",
 "The repository tests one fold and one random-to-field conversion; the prover uses the rest only with polynomials that fit its layers.",
 [S+"transcript.rs",S+"fri/mod.rs",S+"fri/fri_functions.rs",S+"fri/fri_commitment.rs",S+"prover.rs",S+"constraints/evaluation_table.rs"],
 [("transcript_to_field, transcript_to_usize, sample_z_ood, batch_sample_challenges",S+"transcript.rs"),("fri_commit_phase, fri_query_phase, fold_polynomial",S+"fri"),("evaluate_polynomial_on_lde_domain",S+"prover.rs")],obs=["drawn values","layers and openings"])
import sys
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sc)
print(len(P))

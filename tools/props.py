UC = "check under construction"
prop("C01", "Compilation yields the specified instruction stream or refuses",
 "Compiling a Brainfuck source keeps exactly its eight command characters in order, ignores every other byte, and follows each bracket by a jump operand: the address one past the matching bracket's operand, i.e. where execution continues when the jump is taken. The 16-bit encoding that goes on chain and the field encoding the circuit sees are the same sequence. A source whose brackets do not match, or whose jump target cannot be encoded, is refused (panic) rather than compiled to something else.",
 ["programs", "inputs"], "every byte string as source, every nesting of brackets, every program length including those whose addresses reach the 16-bit limit",
 "Tests compile a handful of sample programs and look at their output; none compares jump operands for all bracket structures, nor non-command bytes, unmatched brackets or 16-bit overflow.",
 ["ckb_bf_vm/src/code.rs"], [("compile_to_u16 / compile and its bracket stack", "ckb_bf_vm/src/code.rs")],
 "exhaustive enumeration of all sources up to a length on the real compiler against a reference compiler",
 "Every source over the 8 commands plus noise bytes up to the stated length, all 256 single bytes at every position of templates, and the 16-bit boundary sizes; the reference compiler is trusted.",
 ["ckb_bf_vm::code::compile", "ckb_bf_vm::code::compile_to_u16"])
prop("C02", "The VM executes Brainfuck as specified",
 "For every program and input on which Brainfuck is defined, the interpreter halts iff the reference machine halts, produces exactly the reference output, consumes input in order, and ends with the reference memory, memory pointer and cycle count; cells are 8 bit and wrap at 255/0. It never reads past the end of the input or left of cell zero silently: such a run panics instead of producing a result.",
 ["programs", "inputs"], "all programs and inputs, all executions",
 "Tests run nine sample programs; they cannot cover all instruction combinations, wrap-arounds, loop shapes or failing runs.",
 ["ckb_bf_vm/src/interpreter.rs"], [("Interpreter::run", "ckb_bf_vm/src/interpreter.rs")],
 "exhaustive enumeration of all programs and inputs up to bounds, stepping the real VM against a reference machine",
 "All programs up to the stated length x all inputs over a boundary alphabet, lock-step with an independent machine; memory growth and long loops by constructed families.")
prop("C03", "The recorded trace is exactly the execution",
 "After a run, the execution record handed to the prover is exact: one processor row per state of the reference machine (clock, instruction pointer, current and next instruction, memory pointer, memory value and its inverse), the memory record is the same rows ordered by address and then time, the instruction record is program plus trace ordered by address with one dummy row for the end, and the input and output records list the bytes read and written in order.",
 ["programs", "inputs"], "every terminating execution of every program on every input",
 "Tests only use the record indirectly, through proofs of a few programs; a record that is wrong in a corner (ordering ties, wrap, final row) is not looked at.",
 ["ckb_bf_vm/src/interpreter.rs", "ckb_bf_vm/src/matrix.rs"], [("record building in Interpreter::run", "ckb_bf_vm/src/interpreter.rs"), ("matrix rows", "ckb_bf_vm/src/matrix.rs")],
 "exhaustive enumeration of executions, every row of every table compared with the reference machine's trace",
 "Same execution family as C02; equality of all rows of all tables.")
prop("C04", "Every genuine execution satisfies the circuit",
 "For every program and input whose run halts and consumes the whole input, the circuit built from the VM's record, with the compiled program and the input as public inputs, is satisfied at any number of rows that is large enough for its tables, for any verifier challenges.",
 ["programs", "inputs", "configurations"], "all halting executions, all sufficient circuit sizes, cell ranges used by the circuit",
 "Tests prove a few long sample programs; short programs, empty tables, wrap-around rows, jumps taken and not taken in every combination are not covered.",
 ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/range_table.rs"],
 [("gates, lookups and witness assignment of the tables", "ckb_bf_base/src/*_table.rs")],
 "exhaustive enumeration of halting executions; the real circuit is synthesized and every constraint evaluated at every row",
 "Satisfaction is decided by an independent evaluator of the circuit's own constraint system, cross-checked with MockProver; verifier challenges are fixed pseudo-random values.")
prop("C05", "No forged execution satisfies the circuit",
 "For a given public program and input, the circuit is satisfied only by the genuine execution: if any recorded state, fetched instruction, jump, memory value, input or output byte differs from what the program does on that input, or the run stops early, starts elsewhere, underflows the tape or reads memory that was not last written there, no assignment of the tables is accepted.",
 ["programs", "inputs", "histories"], "every deviation of every execution, including consistent ones in which the machine goes on from the deviating state and re-ordered memory/instruction records",
 "Tests contain no negative case for the Brainfuck circuit at all.",
 ["ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/main_config.rs"],
 [("transition gates, permutation and evaluation arguments, memory order lookup", "ckb_bf_base/src/*_table.rs")],
 "exhaustive enumeration of one-deviation adversarial executions (with continuation) and table permutations on the real constraint system",
 "Soundness is checked against an enumerated adversary: all one-point deviations of all programs up to a length with consistent continuation, plus all orders of the memory record; not against every possible assignment.")
prop("C06", "Every witness cell of the circuit is bound",
 "In a satisfied Brainfuck circuit no witness cell that the circuit assigns in its active rows can be replaced by another value, alone, together with another cell of its row, or by re-scaling or shifting a running product or running sum together with its links, without the circuit rejecting; nor does knowing the challenges leave the prover a choice in the cells it fills in after them.",
 ["inputs", "fault_sequences"], "every assigned advice cell of every table in the proofs of all short programs, times a set of replacement values, plus coordinated column changes",
 "Tests never alter a witness.",
 ["ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/main_config.rs"],
 [("gates, copy constraints, constants", "ckb_bf_base/src")],
 "exhaustive enumeration of single-cell, cell-pair, coordinated column and challenge-adaptive faults in the real circuit's assignment",
 "Complete over assigned cells x listed replacement values for each enumerated program.")
prop("C07", "The proof is bound to program, input and their lengths",
 "A witness for one program and input satisfies the circuit for no other public program, program length, input or input length: changing, inserting, removing or swapping any public value, or changing only a length, makes the circuit reject (public inputs are lists preceded by their length, as the on-chain verifier forms them).",
 ["inputs", "programs"], "all neighbouring public inputs of every short execution",
 "Tests only verify with the public inputs used for proving.",
 ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/input_table.rs"],
 [("program and input tables linked to the instance columns", "ckb_bf_base/src/main_config.rs")],
 "exhaustive enumeration of public-input changes, for honest witnesses and for the witnesses of the changed program",
 "All single insert/delete/replace/swap changes over the value alphabet for every program up to a length.")
prop("C08", "Brainfuck proofs verify, and nothing else does",
 "A proof created from a halting run verifies against its program and input; the same proof against another program or input, with any byte changed, or truncated, is rejected with an error and never by a panic; a proof made from a forged trace does not verify.",
 ["programs", "inputs", "fault_sequences"], "all short programs and inputs; every byte position and every truncation of the proof",
 "Tests prove a few programs and verify them; no corrupted proof or wrong statement is tried.",
 ["ckb_bf_prover/src/main.rs", "halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/verifier.rs", "ckb_bf_base/src/main_config.rs"],
 [("create_proof / verify_proof", "halo2_proofs/src/plonk")],
 "exhaustive enumeration of short programs and of all single-byte faults and truncations of real proofs",
 "Real keygen, prover and verifier; small cell range (2 bit) for breadth plus 8-bit runs; bit flips enumerated per byte.")
prop("C09", "The command line prover's transaction satisfies the on-chain verifier",
 "For every program and input whose run halts having read the whole input and whose compiled program and input fit the script's buffers, the command line tool writes a transaction that carries the script's binary, is locked by its hash, and whose witnesses (verifier parameters, verifying key, proof, compiled program, input) make the on-chain script return success; for any other run it fails and writes no transaction. If the proof, program or input witness is altered in any byte, or any witness is truncated, missing, exchanged with another position or with that of another transaction, the script does not return success.",
 ["programs", "inputs", "fault_sequences"], "all programs and inputs within the script's buffers, including sizes at powers of two; every altered witness",
 "The on-chain path is not run by any test (it needs a RISC-V build).",
 ["ckb_bf_prover/src/main.rs", "ckb_bf_prover/src/ckb_tx.rs", "ckb_bf_verifier/src/main.rs", "ckb_bf_base/src/utils.rs"],
 [("transaction building", "ckb_bf_prover/src/ckb_tx.rs"), ("program_entry", "ckb_bf_verifier/src/main.rs"), ("read_verifier_params", "ckb_bf_base/src/utils.rs")],
 "exhaustive enumeration of boundary programs and single-witness faults through the real prover binary and a host build of the real verifier script",
 "The verifier script is compiled for the host with a stand-in for ckb_std's witness syscall.")
prop("C10", "The proof system accepts exactly the satisfied circuits",
 "For every circuit (custom gates with rotations, selectors, copy constraints, lookups, several challenge phases, fixed, advice and instance columns) and every assignment, the verifier accepts the prover's proof iff every gate vanishes on every usable row, every copy constraint holds and every looked-up tuple is in its table; this holds for each commitment scheme and opening strategy provided (KZG with SHPLONK or GWC, IPA), and for several circuits proved together.",
 ["inputs", "configurations"], "all assignments of a family of small circuits over a small alphabet, all schemes",
 "One fixed circuit is proved in the tests, with correct witnesses and one wrong instance.",
 ["halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/evaluation.rs", "halo2_proofs/src/plonk/lookup/prover.rs", "halo2_proofs/src/plonk/lookup/verifier.rs", "halo2_proofs/src/plonk/permutation/prover.rs", "halo2_proofs/src/plonk/permutation/verifier.rs", "halo2_proofs/src/plonk/permutation/keygen.rs", "halo2_proofs/src/plonk/keygen.rs", "halo2_proofs/src/plonk/vanishing/prover.rs", "halo2_proofs/src/plonk/vanishing/verifier.rs"],
 [("create_proof, verify_proof, keygen", "halo2_proofs/src/plonk")],
 "exhaustive enumeration of assignments of small circuits: reference evaluator vs real prover and verifier",
 "Field-scale soundness is out of reach; every enumerated unsatisfied assignment must be rejected (error probability about 2^-240) and every satisfied one accepted.")
prop("C11", "Keys and parameters survive serialization; malformed bytes are errors",
 "Writing and reading back a verifying key, proving key or commitment parameters, in every offered format, gives an object that verifies and proves exactly like the original and re-serializes to the same bytes; truncated or malformed bytes give an error, never a panic or a different key.",
 ["inputs", "configurations", "fault_sequences"], "all key/format combinations for a family of circuits; all truncations and single-byte faults",
 "Only one params roundtrip and the prover's own vk roundtrip are exercised.",
 ["halo2_proofs/src/plonk.rs", "halo2_proofs/src/helpers.rs", "halo2_proofs/src/poly/kzg/commitment.rs", "halo2_proofs/src/poly/ipa/commitment.rs", "ckb_bf_base/src/utils.rs"],
 [("read/write", "halo2_proofs/src/plonk.rs"), ("SerdeFormat, CurveRead", "halo2_proofs/src/helpers.rs")],
 "exhaustive enumeration of formats, truncation points and byte faults on real keys",
 "All single-byte faults of the small keys enumerated; longer ones per position with a fixed set of changes.")
prop("C12", "Transcripts bind everything absorbed, in order",
 "Writer and reader sides of every transcript (Blake2b, Keccak, Poseidon) derive identical challenges from identical operation sequences and reproduce the written points and scalars; two different operation sequences (different kind, order, value or number of absorbed items, or number of challenges squeezed before) never give the same next challenge (for the untagged Poseidon transcript: sequences that differ in an absorbed value, or in the values absorbed before the first challenge); reading past the end or invalid encodings is an error, not a panic.",
 ["histories", "inputs"], "all sequences of absorb/write/squeeze operations up to a depth",
 "No test compares transcripts across operation sequences.",
 ["halo2_proofs/src/transcript.rs", "halo2_proofs/src/transcript/poseidon.rs"],
 [("Transcript, TranscriptRead, TranscriptWrite implementations", "halo2_proofs/src/transcript")],
 "exhaustive enumeration of transcript operation sequences, writer and reader in lock-step, all challenges pairwise compared",
 "All sequences up to the stated depth over a small value alphabet; collision freeness checked pairwise over the whole set; Poseidon has no domain tags, so there sequences of one operation pattern (and all sequences before the first challenge) are compared.")
prop("C13", "Polynomial openings verify iff the claimed values are right",
 "For every set of polynomials, commitments and queries (points shared or not, rotations, one polynomial at several points), the opening proof verifies when every claimed evaluation is the true one and is rejected when any evaluation, commitment, point or proof byte is wrong, for KZG with SHPLONK and GWC and for IPA, singly or batched through an accumulating strategy.",
 ["inputs", "configurations"], "all query patterns up to a size; every single wrong element",
 "One fixed query pattern is tested per scheme.",
 ["halo2_proofs/src/poly/kzg", "halo2_proofs/src/poly/ipa", "halo2_proofs/src/poly/query.rs"],
 [("ProverSHPLONK/VerifierSHPLONK, GWC, IPA", "halo2_proofs/src/poly"), ("strategies and MSM", "halo2_proofs/src/poly/*/strategy.rs")],
 "exhaustive enumeration of query patterns and single faults on the real openings",
 "All patterns over the stated numbers of polynomials and points.")
prop("C14", "Polynomial arithmetic equals the mathematical definition",
 "For every domain size, conversions between coefficient, Lagrange and extended-coset form, rotations, division by the vanishing polynomial, interpolation, evaluation, division by a linear factor, evaluation of the Lagrange basis at points outside the domain, and conversion of commitment bases to Lagrange form compute the mathematically defined result, for every input length.",
 ["inputs", "configurations"], "all domain sizes and degrees in range, all basis vectors (the maps are linear), all rotations",
 "Tests check a rotation and a few random polynomials.",
 ["halo2_proofs/src/poly/domain.rs", "halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly.rs"],
 [("EvaluationDomain", "halo2_proofs/src/poly/domain.rs"), ("best_fft, eval_polynomial, kate_division, lagrange_interpolate", "halo2_proofs/src/arithmetic.rs")],
 "exhaustive enumeration of sizes and basis vectors against definition-level evaluation",
 "Linear maps are decided by all basis vectors per size; non-linear ones over enumerated point sets.")
prop("C15", "Multi-scalar multiplication equals the sum of products",
 "The multi-exponentiation routines and the commitment MSM accumulators return exactly the sum of scalar times point for every number of terms, including zero and extreme scalars, repeated, opposite and identity points.",
 ["inputs", "configurations"], "all lengths across window-size and chunking changes; boundary scalars in every position",
 "Tests use random terms for a few lengths, if at all.",
 ["halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly/kzg/msm.rs", "halo2_proofs/src/poly/ipa/msm.rs"],
 [("best_multiexp, small_multiexp", "halo2_proofs/src/arithmetic.rs")],
 "exhaustive enumeration of lengths x boundary scalars x point patterns against naive sums",
 "All lengths in range and all tuples over the boundary alphabet for short lengths.")
prop("C16", "Layout never changes the meaning of a circuit",
 "Whatever regions a circuit assigns, in whatever order and shape, both floor planners place them without overlap of any column's rows and preserve every assigned value, selector, copy, constant and lookup table entry relative to its region; a circuit that does not fit is an error; tables that are unevenly or doubly assigned are refused.",
 ["programs", "configurations"], "all sequences of region shapes up to a size, for every planner",
 "Tests lay out a few fixed circuits.",
 ["halo2_proofs/src/circuit/floor_planner/single_pass.rs", "halo2_proofs/src/circuit/floor_planner/v1.rs", "halo2_proofs/src/circuit/floor_planner/v1/strategy.rs", "halo2_proofs/src/circuit/layouter.rs", "halo2_proofs/src/circuit.rs"],
 [("SimpleFloorPlanner, V1, slot_in", "halo2_proofs/src/circuit/floor_planner")],
 "exhaustive enumeration of region sequences, placements checked against a reference model of regions",
 "All sequences of up to the stated number of regions over the shape alphabet.")
prop("C17", "Selector compression preserves every selector's meaning",
 "Combining selectors into fixed columns keeps, for every activation pattern and degree bound, each selector's substituted expression non-zero exactly on the rows where the selector was enabled, zero elsewhere, and within the degree bound; so keys generated with compression accept exactly what the uncompressed circuit accepts.",
 ["configurations", "inputs"], "all activation patterns of a few selectors over a few rows, all degrees",
 "Property tests sample a few patterns.",
 ["halo2_proofs/src/plonk/circuit/compress_selectors.rs", "halo2_proofs/src/plonk/circuit.rs"],
 [("compress_selectors::process", "halo2_proofs/src/plonk/circuit/compress_selectors.rs")],
 "exhaustive enumeration of selector activation patterns, substituted expressions evaluated on every row",
 "All patterns for up to the stated numbers of selectors and rows.")
prop("C18", "Field arithmetic is exact",
 "Addition, subtraction, negation, doubling, multiplication, squaring, inversion, exponentiation, square root, comparison, conversion from integers and wide bytes, and canonical encoding of every prime field (and of the BN256 extension fields) agree with integer arithmetic modulo the prime for every operand; non-canonical encodings are rejected.",
 ["inputs"], "all pairs over a boundary alphabet of limb patterns",
 "Tests use random operands, which never hit carry and reduction corner cases.",
 ["halo2curves/src/derive/field.rs", "halo2curves/src/bn256/fr.rs", "halo2curves/src/bn256/fq.rs", "halo2curves/src/bn256/fq2.rs", "halo2curves/src/bn256/fq6.rs", "halo2curves/src/bn256/fq12.rs", "halo2curves/src/secp256k1/fp.rs", "halo2curves/src/secp256k1/fq.rs", "halo2curves/src/arithmetic.rs"],
 [("field macros", "halo2curves/src/derive/field.rs")],
 "exhaustive enumeration of boundary operand pairs against big-integer arithmetic",
 "All pairs over the boundary alphabet; not all field elements.")
prop("C19", "Curve operations obey the group law and encodings are canonical",
 "On every curve, addition (projective, mixed, affine), doubling, negation, subtraction, scalar multiplication and batch normalization agree with the group law for all operand combinations including identity, equal and opposite points; encodings decode to the encoded point, and only valid on-curve canonical encodings decode.",
 ["inputs"], "all pairs of small multiples of the generator and the identity in several projective representations; every single-byte fault of encodings",
 "Tests use random points and a few fixed cases.",
 ["halo2curves/src/derive/curve.rs", "halo2curves/src/bn256/curve.rs", "halo2curves/src/secp256k1/curve.rs"],
 [("new_curve_impl", "halo2curves/src/derive/curve.rs")],
 "exhaustive enumeration of operand pairs in a small subgroup range against integer multiples; all byte faults of encodings",
 "Group law decided on multiples of the generator in a window, all representations.")
prop("C20", "The BN256 pairing is bilinear and non-degenerate",
 "For all points of G1 and G2 and all scalars, e(aP,bQ) = e(P,Q)^(ab); it is one iff a factor is the identity; the multi-pairing and prepared-point paths equal the product of single pairings.",
 ["inputs"], "all pairs of scalars in a window with signs and the identity; all short multi-pairing lists",
 "One random bilinearity test.",
 ["halo2curves/src/bn256/engine.rs", "halo2curves/src/bn256/fq12.rs", "halo2curves/src/bn256/fq6.rs", "halo2curves/src/bn256/fq2.rs"],
 [("multi_miller_loop, final_exponentiation", "halo2curves/src/bn256/engine.rs")],
 "exhaustive enumeration of scalar pairs and multi-pairing lists against powers in the target group",
 "Window of scalars and their negatives plus boundary scalars.")
prop("C21", "Poseidon is one function, however it is fed",
 "The Poseidon hash gives the same result for the same sequence of field elements however it is split into update calls, equals the permutation defined by the parameters without the sparse-matrix optimization, and differs for different sequences including those that differ only in trailing zeros or length; the duplex used as transcript obeys the same.",
 ["histories", "inputs"], "all splits of all short sequences over a small alphabet; several widths and rates",
 "Tests check known vectors and one split.",
 ["poseidon/src/poseidon.rs", "poseidon/src/permutation.rs", "poseidon/src/spec.rs", "poseidon/src/grain.rs", "poseidon/src/matrix.rs", "halo2_gadgets/src/poseidon/primitives.rs"],
 [("Poseidon::update/squeeze, Spec::new", "poseidon/src")],
 "exhaustive enumeration of sequences and splits against a definition-level permutation",
 "All sequences up to the stated length over the alphabet.")
prop("C22", "Circuit gadgets compute and constrain their function",
 "Each utility gadget (lookup range check, running-sum decomposition, conditional swap, Poseidon hash chip) is satisfied exactly for the inputs its documentation allows, outputs the documented function, and rejects every altered intermediate or output cell.",
 ["inputs", "fault_sequences"], "all inputs and all witnesses over small prime fields; over the Pasta field all range boundaries and every assigned cell altered",
 "Tests check a few values; altered witnesses only in two gadgets.",
 ["halo2_gadgets/src/utilities/lookup_range_check.rs", "halo2_gadgets/src/utilities/decompose_running_sum.rs", "halo2_gadgets/src/utilities/cond_swap.rs", "halo2_gadgets/src/utilities.rs", "halo2_gadgets/src/poseidon/pow5.rs"],
 [("gadget chips", "halo2_gadgets/src/utilities, halo2_gadgets/src/poseidon")],
 "explicit-state enumeration of every satisfying witness of the real chips laid out over tiny prime fields (5..257), compared as a set with the documented relation; boundary inputs and single-cell faults over the Pasta field",
 "Tiny fields with words up to 4 bits, up to 4 words/windows, Poseidon widths 2-4 with 4-8 rounds and up to 4 (quick) or 5 inputs; Pasta: words of 3, 4 (thorough: 10) bits up to field capacity.")
prop("C23", "The mock prover's verdict is the circuit's meaning",
 "For every circuit and assignment, the development-time mock prover reports success iff every gate vanishes on the usable rows, every lookup tuple is in its table, every copy constraint holds and every cell used by an active gate of a region was assigned; its report names a constraint that is really violated.",
 ["inputs", "configurations"], "all assignments of a family of small circuits over a small alphabet",
 "Tests check three failure kinds on fixed circuits.",
 ["halo2_proofs/src/dev.rs", "halo2_proofs/src/dev/failure.rs", "halo2_proofs/src/dev/util.rs"],
 [("MockProver::run/verify", "halo2_proofs/src/dev.rs")],
 "exhaustive enumeration of assignments of small circuits: reference evaluator vs mock prover",
 "Same circuit family as C10, denser enumeration.")
prop("C24", "Deferred inversion and unknown values never change what is computed",
 "The fractions in which circuits hold witness and fixed values behave as the field elements they stand for (a zero denominator stands for zero): every operation and comparison on them, in any combination, gives the fraction of the result on field elements (the inverse of zero being zero), and keys, proofs and mock prover see exactly the evaluated values; operations on values that may be unknown give the operation's result if all operands are known and unknown otherwise.",
 ["inputs"], "all fractions over small prime fields, all operations and their compositions; all short columns of fractions in real circuits",
 "Tests sample random expressions; the zero-denominator cases matter in combination and in batches.",
 ["halo2_proofs/src/plonk/assigned.rs", "halo2_proofs/src/circuit/value.rs", "halo2_proofs/src/poly.rs", "halo2_proofs/src/circuit.rs"],
 [("Assigned", "halo2_proofs/src/plonk/assigned.rs"), ("Value", "halo2_proofs/src/circuit/value.rs"), ("batch_invert_assigned", "halo2_proofs/src/poly.rs")],
 "complete enumeration of fractions, operations and compositions over F_2..F_7 (thorough F_13) against the field; enumeration of columns of fractions through keygen, prover, verifier and mock prover",
 "F_2, F_3, F_5, F_7 all triples; real field: 8 elements as numerator and denominator; columns of 3 (thorough 4) fractions over 8-9 kinds.")
prop("C25", "The elliptic curve gadget computes and enforces the group law",
 "For all points of the curve and all scalars: the circuit gadget accepts as a witnessed point exactly the points of the curve (non-identity: without the identity); complete addition is satisfied for exactly the sum, incomplete addition for the sum of distinct non-opposite non-identity points and refuses the others; variable-base, full-width, short signed and base-field fixed-base multiplication yield the scalar multiple for every base and scalar of the documented range; and no other witness satisfies the constraints with the same inputs and another result, including witnesses that decompose a scalar differently.",
 ["inputs", "adversarial input"], "all pairs of points over small fields with all witnesses; boundary scalars over the Pasta field; a forging prover altering each variable of the laid-out gadget and recomputing the rest",
 "Tests run honest witnesses of a few random operands; whether another witness passes is not testable by running the honest one.",
 ["halo2_gadgets/src/ecc.rs", "halo2_gadgets/src/ecc/chip/", "halo2_gadgets/src/utilities/decompose_running_sum.rs", "halo2_gadgets/src/utilities/lookup_range_check.rs"],
 [("EccInstructions for EccChip", "halo2_gadgets/src/ecc/chip.rs"), ("mul", "halo2_gadgets/src/ecc/chip/mul.rs"), ("mul_fixed", "halo2_gadgets/src/ecc/chip/mul_fixed.rs"), ("add", "halo2_gadgets/src/ecc/chip/add.rs")],
 "the laid-out circuit of the real chip as a system of equations: all witnesses enumerated over F_7 and F_37 and compared with the group law; over the Pasta field enumeration of boundary operands and of all single-variable forgeries with recomputation, and of alternative scalar decompositions",
 "F_7, F_37 all pairs; 11 x 11 points; about 400 scalars per kind of multiplication; every variable of the laid-out multiplications, 2-4 values each; 28 scalars with up to 7 other decompositions.")
prop("C26", "Sinsemilla and its Merkle path compute and enforce their definition",
 "For all messages, randomness, leaves, sibling lists and positions: the Sinsemilla hash and commitment outside the circuit equal their definition (fold of Q with the generator of each 10-bit word, least significant bit first, zero padded, by incomplete addition; plus the blinding multiple); the circuit gadgets are satisfiable and yield the same point, coordinate and running sums for every way of cutting the message into pieces, and refuse pieces that do not fit; the Merkle gadget yields the root obtained by hashing (layer, left, right) with the children swapped by the position bits, with any number of chips sharing the work; and no other witness satisfies the constraints with the same inputs and another result.",
 ["inputs", "adversarial input"], "all short messages and boundary messages of every length; all piece cuts; a forging prover altering each variable of the laid-out gadget and recomputing the rest",
 "Tests run a few fixed messages and one path with the honest witness; whether another witness passes is not testable by running the honest one.",
 ["halo2_gadgets/src/sinsemilla.rs", "halo2_gadgets/src/sinsemilla/", "halo2_gadgets/src/utilities/cond_swap.rs"],
 [("HashDomain, CommitDomain", "halo2_gadgets/src/sinsemilla/primitives.rs"), ("hash_to_point", "halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs"), ("MerkleChip::hash_layer", "halo2_gadgets/src/sinsemilla/merkle/chip.rs"), ("MerklePath::calculate_root", "halo2_gadgets/src/sinsemilla/merkle.rs")],
 "enumeration of messages, piece cuts, paths and positions against the definition in curve arithmetic; the laid-out circuit of the real chip as a system of equations, with all single-variable forgeries and recomputation",
 "All messages up to 12 bits and 5 patterns for 132 lengths up to 2530; all cuts of up to 4 words; 1-word messages; 12 x 12 nodes x 2 positions, all positions of paths up to length 4 with 1-3 chips, length 32; every variable of 4 hashes and 4 paths. Non-canonical encodings of nodes inside the Merkle hash are left to callers, as the chip documents.")

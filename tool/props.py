#!/usr/bin/env python3
"""Writes properties.jsonl (kept here because it is easier to edit than JSON lines)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Copy constraints become exactly the wiring permutation",
  "For every circuit, two wires lie on the same cycle of the built wiring permutation if and only if they were connected by the requested copies, directly or through any chain of wires and virtual targets; every routed wire lies on exactly one cycle and the permutation is a bijection on wire positions. The permutation polynomials handed to the prover and the verification key encode that permutation, and the permutation argument's running product returns to one exactly for assignments which are constant on every cycle.",
  ["programs", "inputs"], "every sequence of gate additions and copies, over every wire of the grid and any virtual targets; every wire assignment",
  "The tests check one hand-written four-target partition and prove a few fixed circuits with honest witnesses; a permutation with a missing or extra link still proves.",
  ["src/partition.rs", "src/circuit_builder.rs", "src/target.rs", "src/plonk_util.rs", "src/plonk.rs"],
  [("union-find over targets and its projection to wires", "src/partition.rs"), ("cycle to sigma", "src/partition.rs to_gate_permutation, src/plonk_util.rs sigma_polynomials"), ("grand product", "src/plonk_util.rs permutation_polynomial"), ("copy bookkeeping", "src/circuit_builder.rs copy, assert_valid")],
  [("copy_constraints", "the requested copies", "CircuitBuilder")],
  ["Circuit fields after build", "permutation polynomial values", "constraint evaluation"])

p("C02", "Witness generation is complete, consistent and order-independent",
  "For every circuit and input assignment, witness generation gives every computed target the value its generator defines from its dependencies, gives all targets joined by copies the same value, and runs each generator as soon as, and only if, all its dependencies are known, so that the result does not depend on the order in which gates, generators or copies were declared. The resulting wire table carries each wire's value at that wire's row and column.",
  ["programs", "inputs", "schedules"], "every dependency graph of generators and copies, every declaration order and every set of inputs",
  "The tests generate witnesses of a few fixed circuits built in one order, with full and consistent inputs.",
  ["src/witness.rs", "src/plonk.rs", "src/circuit_builder.rs", "src/gates/curve_add.rs"],
  [("generation work list", "src/plonk.rs generate_partial_witness"), ("copy propagation", "src/plonk.rs, src/witness.rs"), ("target-indexed storage", "src/witness.rs PartialWitness"), ("row-major table", "src/plonk.rs generate_witness, src/witness.rs Witness")],
  [("pending generators", "dependencies not all known", "generate_partial_witness"), ("partial witness", "target to value", "PartialWitness")],
  ["PartialWitness after generation", "Witness rows"])

p("C03", "Every challenge depends on everything observed and is fresh",
  "The challenger is a sponge over its observations: its challenges are a deterministic function of the history of observations and challenge requests, the native and the in-circuit version return the same challenges for the same history, and bundled or split calls that observe the same elements in the same order are equivalent. Two histories of the same shape that differ in any observed element before a challenge give different challenges from there on, and no challenge is ever returned twice within a history, also when several are requested in a row.",
  ["histories", "inputs"], "every interleaving of observation and challenge calls of any lengths, over all observed values",
  "The one test compares the native and in-circuit challengers on one history with one observation per challenge.",
  ["src/plonk_challenger.rs", "src/rescue.rs", "src/conversions.rs"],
  [("duplex sponge buffers", "src/plonk_challenger.rs"), ("permutation", "src/rescue.rs")],
  [("input buffer", "observed and not yet absorbed", "Challenger"), ("output buffer", "squeezed and not yet returned", "Challenger"), ("sponge state", "the permutation's state", "Challenger")],
  ["Challenger::get_challenge and variants", "RecursiveChallenger through a proved circuit"],
  None)

p("C04", "Each protocol challenge binds every message sent before it",
  "Every verifier challenge of a proof changes when any message that precedes it in the protocol changes: the public inputs and wire commitments before the permutation challenges, the permutation commitment before the constraint combiner, the quotient commitments, the public-input quotient commitment and the old proofs' points before the evaluation point, all openings before the batching and inner-product scalings, each folding round's points before that round's challenge, and the Schnorr commitment before the Schnorr challenge. The challenges the prover uses are those the verifier derives from the finished proof, and no challenge depends on a message sent after it.",
  ["inputs", "histories"], "every proof, every message in it, and every change to that message",
  "Tests verify honest proofs only; a transcript that ignores a message still verifies them.",
  ["src/plonk_proof.rs", "src/plonk.rs", "src/halo.rs", "src/poly_commit.rs", "src/plonk_challenger.rs"],
  [("verifier transcript", "src/plonk_proof.rs get_challenges"), ("prover transcript", "src/plonk.rs generate_proof, src/halo.rs batch_opening_proof")],
  [("transcript", "sequence of observed messages", "Challenger")],
  ["Proof::get_challenges on mutated proofs"])

p("C05", "Honest proofs are accepted",
  "For every circuit whose constraints the inputs satisfy, the prover produces a proof that the verifier accepts under the circuit's verification key and the circuit's actual public inputs, for every public-input layout, circuit size, curve of the supported cycles at the 128-bit security level, public inputs that are elements of both of the cycle's fields, blinding randomness and any number of old proofs being carried along. The verification key is consistent with the circuit it was made from.",
  ["programs", "inputs", "configurations"], "every satisfiable circuit and witness, public-input count and old-proof count",
  "Tests prove a handful of circuits with up to two public inputs and no old proofs.",
  ["src/plonk.rs", "src/verifier.rs", "src/plonk_proof.rs", "src/circuit_builder.rs", "src/halo.rs", "src/plonk_util.rs"],
  [("prover", "src/plonk.rs generate_proof"), ("verifier", "src/verifier.rs verify_proof_circuit"), ("public-input gates", "src/circuit_builder.rs build"), ("old proof handling", "src/plonk.rs, src/verifier.rs")],
  [], ["generate_proof", "verify_proof"])

p("C06", "The verifier accepts exactly what the proof equations allow",
  "The verifier accepts a well-formed proof if and only if, at the challenges derived from the transcript, the opened constraint evaluations match the quotient, the public-input opening matches the claimed public inputs, and every opened value is consistent with its commitment through the combined opening proof, including the old proofs' points and the key's own commitments. A wire assignment that breaks a gate constraint, a copy constraint or a public-input claim, or a proof in which any element was altered, is therefore never accepted.",
  ["inputs", "fault_sequences"], "every proof, honest, corrupted in any position or made by a prover that deviates in any single step, against every public-input claim and key",
  "Tests never offer the verifier a wrong proof, witness or public input.",
  ["src/verifier.rs", "src/halo.rs", "src/plonk_util.rs", "src/plonk_proof.rs", "src/poly_commit.rs"],
  [("quotient identity at zeta", "src/verifier.rs"), ("public-input quotient", "src/verifier.rs, src/plonk.rs"), ("inner-product argument and Schnorr check", "src/halo.rs verify_ipa, src/verifier.rs"), ("vanishing terms", "src/plonk_util.rs, src/gates")],
  [], ["verify_proof on honest, corrupted and forged proofs"])

p("C07", "Malformed proofs are rejected with an error, not a panic",
  "Verification of any proof value, with any vector lengths, points on or off the curve or at infinity, any field elements, any public inputs and any old-proof list, returns normally. It returns an error whenever the number of public inputs, commitments, openings or rounds differs from what the key prescribes or a commitment is not on the curve.",
  ["inputs", "fault_sequences"], "every proof value constructible through the public types, against every key",
  "Tests only verify proofs made by the prover.",
  ["src/verifier.rs", "src/plonk_proof.rs", "src/halo.rs", "src/plonk_challenger.rs"],
  [("shape and curve checks", "src/verifier.rs check_proof_parameters, check_proof_shape"), ("conversions with errors", "src/plonk_proof.rs get_challenges")],
  [], ["verify_proof return value"])

p("C08", "Deferred opening checks are carried, not lost",
  "A proof whose verification is deferred yields an accumulator made of its final point and round challenges; the deferred claim holds exactly when the full verification would have accepted, and folding an accumulator into a next proof opens it at that proof's evaluation points with the values its round challenges determine. A next proof that carries a false accumulator, leaves one out, reorders them or alters its round challenges is rejected when the chain is finally checked.",
  ["histories", "inputs", "fault_sequences"], "every chain of proofs, each deferring to the next, with any accumulator true or false",
  "No test verifies a proof with an old proof whose accumulator is wrong, and recursion tests are ignored.",
  ["src/verifier.rs", "src/halo.rs", "src/plonk.rs", "src/plonk_proof.rs"],
  [("deferred verification", "src/verifier.rs verify_proof(verify_g=false)"), ("old-proof polynomials", "src/plonk.rs, src/plonk_util.rs halo_g, halo_s"), ("final point check", "src/verifier.rs")],
  [("old proofs", "accumulators: final point and round challenges", "OldProof")],
  ["verify_proof results along chains", "halo_s, halo_g"])

p("C09", "Gate selection is exclusive and covers every row",
  "Each row of a built circuit selects exactly the gate that was placed there: the selection values of a row make that gate's constraints apply unscaled by anything that can vanish, and make every other gate's constraints vanish identically, whatever the wires hold. Gate-specific constants never collide with the selection values, and no row, also among the padding, public-input and blinding rows, escapes its own gate's constraints.",
  ["programs", "inputs"], "every pair of gates, every constant configuration and all wire values",
  "Tests check only honest rows, on which a gate selected too weakly or together with another can stay invisible.",
  ["src/gates/mod.rs", "src/circuit_builder.rs", "src/plonk_util.rs"],
  [("prefix filter", "src/gates/mod.rs"), ("row constants", "src/circuit_builder.rs add_gate"), ("sum over all gates", "src/gates/mod.rs evaluate_all_constraints")],
  [], ["evaluate_all_constraints", "Circuit::gate_constants"])

p("C10", "Each gate enforces exactly the operation it stands for",
  "For every gate and every assignment of its local, right and below wires and constants, the gate's constraints vanish if and only if the assignment is an instance of the operation the gate stands for, and the constraints evaluated inside a circuit have the same values as the native ones. Whenever a gate's generator runs, what it writes satisfies the gate's constraints.",
  ["inputs"], "all wire and constant assignments of every gate type",
  "Tests evaluate constraints at a few random points for degree and homogeneity, never against what the gate means.",
  ["src/gates/arithmetic.rs", "src/gates/base_4_sum.rs", "src/gates/buffer.rs", "src/gates/constant.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs", "src/gates/public_input.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs", "src/mds.rs"],
  [("constraint polynomials", "src/gates/*.rs evaluate_unfiltered"), ("in-circuit constraint polynomials", "src/gates/*.rs evaluate_unfiltered_recursively"), ("generators", "src/gates/*.rs generate")],
  [], ["evaluate_unfiltered", "evaluate_unfiltered_recursively through a generated witness", "generate"])

p("C11", "Arithmetic and binary gadgets compute and enforce their function",
  "Every arithmetic gadget of the circuit builder - constants, addition, subtraction, multiplication, division, inversion, negation, exponentiation by a constant, the even square root, sums, products, selection, tests for zero and equality, negation of a bit, Rescue hashes, and assertions of zero, one, bits, base-4 digits, nonzero, equality, conditional equality and orderings - gives its result target the value of the function it is named after for every input in its domain, alone and composed in programs. No assignment satisfying the emitted constraints and copies has any other result, and where the function is undefined or an assertion does not hold the circuit cannot be satisfied.",
  ["inputs", "programs"], "all inputs of each gadget, all constant parameters and all prover-chosen internal values",
  "Tests run the witness generator on a few inputs and do not try to satisfy a gadget's constraints with wrong values.",
  ["src/circuit_builder.rs", "src/circuit_ordering.rs"],
  [("gadgets", "src/circuit_builder.rs"), ("ordering", "src/circuit_ordering.rs"), ("arithmetic and base-4 gates", "src/gates")],
  [], ["generated witness", "satisfiability of the built circuit's constraints by exhaustive assignment over small fields"])

p("C12", "Curve points obey the group law in every coordinate system",
  "Affine, projective and mixed addition, doubling, negation, subtraction, conversion between coordinates, equality and batch addition agree with the elliptic-curve group law for all points, including the point at infinity, equal points, opposite points, points of order two and every projective representative of a point. The built-in curves' constants describe a curve with the declared order, generator, and endomorphism.",
  ["inputs", "configurations"], "all pairs of points and representatives on every curve",
  "Tests add a few generic points of one curve; exceptional cases have no tests on most paths.",
  ["src/curve/curve.rs", "src/curve/curve_adds.rs", "src/curve/tweedledee_curve.rs", "src/curve/tweedledum_curve.rs", "src/curve/pallas_curve.rs", "src/curve/vesta_curve.rs", "src/curve/bls12_377_curve.rs"],
  [("coordinate formulas", "src/curve/curve.rs, src/curve/curve_adds.rs"), ("endomorphism", "HaloCurve constants")],
  [], ["operators on AffinePoint and ProjectivePoint"])

p("C13", "Scalar and multi-scalar multiplication equal repeated addition",
  "Single scalar multiplication, multi-scalar multiplication with and without precomputation in every window size, batched and pairwise affine summations, and multiplication by endomorphism scalars return the sum the group law defines, for every number of points, every scalar from zero up to the group order and any repeated, opposite or infinite points. Sequential and parallel strategies return the same point.",
  ["inputs", "configurations", "schedules"], "all lists of scalars and points, all window sizes and batch sizes",
  "Tests use few distinct random points and scalars with one window size.",
  ["src/curve/curve_msm.rs", "src/curve/curve_multiplication.rs", "src/curve/curve_summations.rs", "src/curve/curve.rs", "src/halo.rs"],
  [("windowed bucket method", "src/curve/curve_msm.rs"), ("digit extraction", "src/curve/curve_msm.rs to_digits"), ("batch inversion summations", "src/curve/curve_summations.rs")],
  [], ["msm_execute, mul, summations"])

p("C14", "Polynomial and FFT operations agree with naive evaluation",
  "Forward and inverse FFTs, with and without precomputation and for inputs shorter than the domain, are evaluation and interpolation at the powers of the domain's primitive root in natural order; polynomial addition, multiplication, division with remainder (both algorithms), division of multiples of X^n - 1, evaluation, interpolation, degree, leading coefficient, padding, trimming and equality, and the Halo polynomial of folding challenges, agree with the definitions for every size, degree and zero-padding, the zero polynomial and sparse operands included. Exact division recovers the quotient whenever the divisor divides.",
  ["inputs"], "all polynomials of all sizes, zero and unpadded ones included",
  "Tests use random dense polynomials at one or two sizes.",
  ["src/fft.rs", "src/polynomial.rs", "src/plonk_util.rs"],
  [("radix-2 transform", "src/fft.rs"), ("polynomial algorithms", "src/polynomial.rs"), ("domain helpers", "src/plonk_util.rs")],
  [], ["fft module and Polynomial methods"])

p("C15", "Field operations are arithmetic modulo the declared prime",
  "For each of the six built-in fields, addition, subtraction, multiplication, division, negation, squaring, inversion, batch inversion, exponentiation, roots, square roots, residue tests, comparison, bit and limb conversions, integer conversions and constants agree with integer arithmetic modulo the field's prime, for every pair of elements and in particular at carries, borrows and reductions. Every result is in canonical range, and encodings at or above the modulus are refused.",
  ["inputs"], "all pairs of elements of every field",
  "Tests cover a fixed list of limb patterns for a subset of the operations, mostly comparing the implementation with itself.",
  ["src/field/field.rs", "src/field/monty.rs", "src/field/tweedledee_base.rs", "src/field/tweedledum_base.rs", "src/field/pallas_base.rs", "src/field/vesta_base.rs", "src/field/bls12_377_base.rs", "src/field/bls12_377_scalar.rs", "src/bigint/bigint_arithmetic.rs", "src/bigint/bigint_inverse.rs", "src/conversions.rs"],
  [("Montgomery arithmetic", "src/field/monty.rs"), ("limb arithmetic", "src/bigint/bigint_arithmetic.rs"), ("inversion", "src/bigint/bigint_inverse.rs, src/field/field.rs")],
  [], ["operators and trait methods of the field types"])

p("C16", "Serialization round-trips and refuses what is not an encoding",
  "Field elements, curve points, proofs, verification keys, their parts and lists of them decode to what was encoded, in any sequence within one stream, with each read consuming exactly the bytes written. Decoding returns an error for truncated input, for field elements at or above the modulus and for point encodings that are not on the curve, and never panics.",
  ["inputs", "fault_sequences"], "all encodable values, all sequences of them, all truncations and corruptions of the bytes",
  "Tests round-trip single random values.",
  ["src/serialization.rs", "src/plonk_proof.rs", "src/plonk.rs", "src/curve/curve.rs"],
  [("readers and writers", "src/serialization.rs"), ("compressed points", "src/serialization.rs")],
  [("cursor", "bytes consumed", "std::io::Read")], ["FromBytes/ToBytes results and cursor positions"])

p("C17", "Lookup arguments prove exactly membership in the table",
  "For every table and list of values whose elements fit in both fields of the curve (as the code assumes) the lookup prover and verifier agree to accept whenever each value is in the table, for every length including powers of two, repeated values and tables needing padding. A list with a value outside the table, and a proof with any altered element, altered shape or an off-curve commitment, is rejected without a panic.",
  ["inputs", "fault_sequences"], "all tables and looked-up lists, all single-element changes of a proof",
  "Two tests prove one table with honest values; nothing is ever rejected.",
  ["plookup/src/plookup.rs", "plookup/src/verifier.rs", "plookup/src/table.rs", "plookup/src/proof.rs", "plookup/src/openings.rs"],
  [("sorted concatenation and grand product", "plookup/src/plookup.rs"), ("verifier equation", "plookup/src/verifier.rs")],
  [], ["plookup prove and verify"])

p("C18", "Rescue hashing is one function, natively, in gates and in circuits",
  "The Rescue permutation and the hash functions built on it equal the published construction for the chosen width, round count, exponents, MDS matrix and round constants, in the native implementation and when computed by a circuit, for every input length and security level. The matrix is maximum distance separable and the permutation is invertible.",
  ["inputs", "configurations"], "all states, input lengths, output lengths and supported fields",
  "Tests compare one random input in and out of a circuit.",
  ["src/rescue.rs", "src/mds.rs", "src/pseudorandom.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs", "src/circuit_builder.rs"],
  [("permutation and sponge", "src/rescue.rs"), ("MDS matrix", "src/mds.rs"), ("round constants", "src/rescue.rs generate_rescue_constants"), ("in-circuit permutation", "src/circuit_builder.rs rescue_*")],
  [("sponge state", "four field elements", "rescue_sponge")], ["rescue_* functions", "generated witness of a hashing circuit"])

p("C19", "Curve gadgets compute and enforce point arithmetic",
  "Circuit gadgets for point addition, doubling, negation, equality and on-curve assertions, constants, scalar multiplication, multi-scalar multiplication and multiplication by the endomorphism's scalars or their inverses give the group-law result for every input on which they are defined, and their constraints refuse any other result.",
  ["inputs", "programs"], "all points and scalars on which each gadget is defined, and all prover-chosen internal values",
  "Tests run few random points; results are compared but wrong ones are never tried against the constraints.",
  ["src/circuit_curve.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs"],
  [("curve gadgets", "src/circuit_curve.rs"), ("curve gates", "src/gates")],
  [], ["generated witness and constraint evaluation"])

p("C20", "Big-integer and foreign-field gadgets compute and enforce arithmetic",
  "Circuit gadgets over multi-limb integers - constants, addition, multiplication, division with remainder, comparison, equality - and over foreign prime fields give the integer or modular result for all inputs within their declared sizes, and their constraints refuse any other result.",
  ["inputs", "programs"], "all operands of all limb counts and all prover-chosen internal values",
  "Tests look at generated values only, not at the constraints, and for a few sizes.",
  ["src/circuit_bigint.rs", "src/circuit_foreign_field.rs"],
  [("limb arithmetic with range checks", "src/circuit_bigint.rs"), ("reduction modulo a foreign prime", "src/circuit_foreign_field.rs")],
  [], ["generated witness and constraint evaluation"])

p("C21", "Hash-to-curve yields reproducible points of the curve",
  "Deriving curve points from seeds always terminates with a finite point on the curve, is deterministic, and gives different points for different seeds; the commitment generators derived this way are pairwise distinct and free of the point at infinity, and a longer list of them extends a shorter one.",
  ["inputs", "configurations"], "all seeds, list lengths and curves",
  "Tests derive a few points and print or count them.",
  ["src/hash_to_curve.rs", "src/plonk_util.rs", "src/circuit_builder.rs"],
  [("try-and-increment", "src/hash_to_curve.rs")], [], ["blake_hash_usize_to_curve, hash_base_field_to_curve"])

p("C22", "Proofs are blinded",
  "Every proof of the same statement uses fresh randomness: all witness-dependent commitments, opened wire values, the opened permutation values of circuits whose wiring is not trivial and the final opening proof differ between two proofs of the same witness, the commitments to witness polynomials carry a uniformly drawn blinding term known only to the prover, and the blinding rows a circuit reserves are outside the rows its gates constrain and hold random values. Blinding never changes whether a proof is accepted.",
  ["histories", "inputs"], "every circuit and witness, proved any number of times",
  "Tests never prove the same statement twice.",
  ["src/plonk.rs", "src/poly_commit.rs", "src/halo.rs", "src/circuit_builder.rs"],
  [("blinding rows", "src/circuit_builder.rs build, src/plonk.rs"), ("commitment blinding", "src/poly_commit.rs"), ("Schnorr proof", "src/halo.rs")],
  [], ["two proofs of one witness"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

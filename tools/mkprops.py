#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, not there."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

M = "tachyon/math/"
prop("C01", "Big integers compute exact fixed-width two's-complement-free arithmetic",
 "Every operation on a fixed-width big integer (add, subtract, multiply, divide, remainder, shifts, bitwise operations, comparison, bit access, halving, signed-digit recoding, decimal and hexadecimal conversion) yields exactly the mathematical result reduced to the width, together with the correct carry or borrow. Division satisfies dividend = quotient * divisor + remainder with remainder < divisor, and every digit recoding or string conversion denotes the value it was made from.",
 ["inputs", "histories"], "all values of the type at every limb count 1..9, in particular all patterns of zero/all-ones/single-bit limbs, and all sequences of operations on them",
 "Unit tests evaluate a handful of random or hand-picked values at one or two widths; carries that cross particular limb boundaries only occur for a vanishing fraction of random values.",
 [M+"base/big_int.h", M+"base/arithmetics.h", M+"base/bit_iterator.h", M+"base/egcd.h", M+"base/byinverter.h", M+"base/gmp/gmp_util.cc"],
 [("BigInt operators and carry chains", M+"base/big_int.h"), ("limb arithmetic", M+"base/arithmetics.h")],
 ["BigInt public operators"])
prop("C02", "Binary serialization round-trips and never over-reads",
 "For every serializable value, writing it to a buffer consumes exactly the predicted number of bytes and reading it back yields an equal value, whatever was written before or after it. Reading from a buffer holding any strict prefix of an encoding fails without reading outside the buffer, and writing to a fixed-size buffer that is too small fails without writing outside it. Reading malformed bytes never aborts or allocates more than the buffer warrants: it fails or yields a well-formed value (for example a field element below the modulus), and moving a buffer keeps its content, position and endianness.",
 ["inputs", "fault_sequences"], "all sequences of serializable values (integers, enums, strings, containers, optionals, field elements, points, polynomials, proofs), all endiannesses, all truncation lengths and all buffer capacities",
 "Tests round-trip a few complete values; truncations, capacity limits, nested containers and mixed-endian sequences are not enumerated.",
 ["tachyon/base/buffer/buffer.h", "tachyon/base/buffer/read_only_buffer.h", "tachyon/base/buffer/copyable.h", "tachyon/base/buffer/vector_buffer.h", "tachyon/base/buffer/read_only_buffer.cc"],
 [("offset and length bookkeeping", "tachyon/base/buffer/buffer.h"), ("Copyable specialisations", "tachyon/base/buffer/copyable.h")])
prop("C03", "JSON and text encodings round-trip and reject malformed input",
 "Converting a supported value to JSON (or to its canonical string form) and parsing it back yields an equal value, and parsing JSON with a missing key, a wrong type or an out-of-range number reports an error naming the problem instead of producing a value.",
 ["inputs", "fault_sequences"], "all supported value types including boundary numbers, nested containers, field elements, points and big integers; all single structural corruptions of the text",
 "Tests parse one well-formed document and one wrong type per trait.",
 ["tachyon/base/json/json.h", "tachyon/base/json/rapidjson_util.h", "tachyon/base/json/rapidjson_util.cc"],
 [("RapidJsonValueConverter", "tachyon/base/json/rapidjson_util.h")])
prop("C04", "Prime field types implement arithmetic modulo p exactly",
 "For every prime field type and all elements, addition, subtraction, negation, doubling, multiplication, squaring, inversion, division, exponentiation, comparison and conversion from or to integers, big integers, strings and Montgomery form agree with arithmetic modulo the field's prime, results are always canonical (equal values have equal representations), and inverting zero is reported as a failure.",
 ["inputs", "histories", "configurations"], "all elements of every configured field (31-bit, 64-bit, one to many limbs, with or without spare bits) and all operation sequences, including in-place and aliased forms",
 "Tests compare random elements against GMP or a few constants; reduction edge cases (values near 0, p-1, R mod p, carries in spare bits) have negligible probability under random choice.",
 [M+"finite_fields/prime_field_fallback.h", M+"finite_fields/small_prime_field.h", M+"finite_fields/small_prime_field_mont.h", M+"finite_fields/prime_field_base.h", M+"finite_fields/modulus.h", M+"finite_fields/goldilocks/internal/goldilocks_prime_field_x86_special.h", M+"finite_fields/generator/prime_field_generator/prime_field_generator.cc"],
 [("Montgomery multiplication and conditional subtraction", M+"finite_fields/prime_field_fallback.h"), ("generated field parameters", M+"finite_fields/generator/prime_field_generator/prime_field_generator.cc")])
prop("C05", "Packed SIMD fields are lane-wise identical to scalar fields",
 "Every operation on a packed field vector gives, in every lane, exactly the canonical result of the scalar operation on the corresponding lane values, independently of the values in other lanes. Mixed packed/scalar and packed extension-field operations, broadcasting and interleaving follow the same rule.",
 ["inputs", "configurations"], "all pairs of lane values (boundary values of the representation in every lane position) for every packed field available on the CPU",
 "Tests use one random vector per operation; the reduction corner cases of the SIMD code are reached only for boundary operands and may affect a single lane.",
 [M+"finite_fields/packed_prime_field32_avx2.h", M+"finite_fields/packed_prime_field_base.h", M+"finite_fields/baby_bear/internal/packed_baby_bear_avx2.cc", M+"finite_fields/koala_bear/internal/packed_koala_bear_avx2.cc", M+"finite_fields/mersenne31/internal/packed_mersenne31_avx2.cc", M+"finite_fields/baby_bear/packed_baby_bear4.h"],
 [("vectorised Montgomery reduction", M+"finite_fields/packed_prime_field32_avx2.h")])
prop("C06", "Extension fields form the declared tower over their base field",
 "Quadratic, cubic, quartic and towered extension fields implement polynomial arithmetic modulo the declared irreducible polynomial: ring operations, squaring, inversion, norm, Frobenius maps (x to x^(p^i)), conjugation, cyclotomic squaring and inversion on the cyclotomic subgroup, and base-field scaling all agree with the definition, and inverting zero is reported as a failure.",
 ["inputs", "histories", "configurations"], "all elements (all coefficient patterns) of every extension degree 2,3,4,6,12, all operand alias patterns and all Frobenius powers",
 "Tests check a few random elements per field and compare algorithm variants with each other rather than with the definition.",
 [M+"finite_fields/quadratic_extension_field.h", M+"finite_fields/cubic_extension_field.h", M+"finite_fields/quartic_extension_field.h", M+"finite_fields/fp2.h", M+"finite_fields/fp3.h", M+"finite_fields/fp4.h", M+"finite_fields/fp6.h", M+"finite_fields/fp12.h", M+"finite_fields/cyclotomic_multiplicative_subgroup.h", M+"finite_fields/extension_field_base.h"],
 [("Karatsuba/CH-SQR multiplication and squaring", M+"finite_fields/quadratic_extension_field.h"), ("Frobenius coefficients", M+"finite_fields/fp12.h")])
prop("C07", "Binary tower fields are fields of characteristic two",
 "For each binary tower field of 1 to 128 bits, addition is exclusive-or, multiplication, squaring, inversion and subfield operations agree with the recursive tower definition, every non-zero element has exactly one inverse, and embedding a subfield element commutes with all operations.",
 ["inputs", "histories"], "all elements of the 1-, 2-, 4- and 8-bit fields in all pairs, and all single- and multi-bit patterns of the larger ones",
 "Tests sample random elements and a few published vectors.",
 [M+"finite_fields/binary_fields/binary_field.h", M+"finite_fields/binary_fields/binary_tower_operations.h", M+"finite_fields/generator/binary_field_generator/binary_field_generator.cc"],
 [("tower multiplication, tables and Karatsuba recursion", M+"finite_fields/binary_fields/binary_tower_operations.h")])
prop("C08", "Square roots, quadratic characters and roots of unity are correct",
 "For every element, the quadratic character says residue exactly when a square root exists; a computed square root squares back to the element and none is returned for a non-residue. A requested root of unity of order n exists exactly when n divides the available two-adic (or mixed) subgroup and has order exactly n.",
 ["inputs", "configurations"], "all elements of prime and extension fields, all two-adicities, all requested orders",
 "Tests check squares of random elements, hence never the failing half or the special elements.",
 [M+"finite_fields/square_root_algorithms/shanks.h", M+"finite_fields/square_root_algorithms/tonelli_shanks.h", M+"finite_fields/legendre_symbol.h", M+"finite_fields/prime_field_base.h", M+"finite_fields/quadratic_extension_field.h"],
 [("Tonelli-Shanks loop", M+"finite_fields/square_root_algorithms/tonelli_shanks.h"), ("root-of-unity selection", M+"finite_fields/prime_field_base.h")])
prop("C09", "Bulk algebra helpers equal the element-wise definition",
 "Batch inversion (with or without a coefficient, into the same or another container), successive powers, powers, sums of products, linear combinations, scalar multiplication of containers and rational-number arithmetic give exactly what applying the scalar definition to each element gives, for every container size and every position of zeros.",
 ["inputs", "histories", "configurations"], "all container lengths up to several times the parallel thresholds, all zero/non-zero patterns, all aliasing patterns",
 "Tests use one or two lengths with random non-zero values.",
 [M+"base/groups.h", M+"base/semigroups.h", M+"base/ring.h", M+"base/field.h", M+"base/rational_field.h"],
 [("Montgomery batch inversion", M+"base/groups.h"), ("power chains", M+"base/semigroups.h")])
prop("C10", "Elliptic-curve points form the curve group in every representation",
 "In affine, projective, Jacobian and XYZZ coordinates alike, addition, mixed addition, doubling, negation, subtraction, scalar multiplication, equality, conversion and batch normalisation agree with the curve's group law for all points, including the identity, equal points, opposite points and different projective representatives of one point.",
 ["inputs", "histories", "configurations"], "all pairs of points of the group (all representatives), all scalars, curves with a = 0 and a != 0",
 "Tests use one pair of hard-coded points per operation; exceptional cases (P+P, P+(-P), identity, order-2 points) in each mixed-representation routine are mostly unvisited.",
 [M+"elliptic_curves/short_weierstrass/affine_point.h", M+"elliptic_curves/short_weierstrass/jacobian_point_impl.h", M+"elliptic_curves/short_weierstrass/projective_point_impl.h", M+"elliptic_curves/short_weierstrass/point_xyzz_impl.h", M+"elliptic_curves/short_weierstrass/affine_point_impl.h", M+"geometry/point_conversions.h", M+"elliptic_curves/semigroups.h"],
 [("explicit-formula addition with exceptional-case branches", M+"elliptic_curves/short_weierstrass/jacobian_point_impl.h")])
prop("C11", "Point decompression, validation and endomorphisms are exact",
 "Constructing a point from an x coordinate succeeds when and only when the curve has a point there and returns the one with the requested y parity (the only one when y is zero); on-curve checks accept exactly the representations of finite curve points, in every coordinate system; and the curve endomorphism multiplies every point by its declared eigenvalue. Circle-group points obey the circle group law.",
 ["inputs"], "all x coordinates, all coordinate pairs, all points",
 "Tests check one or two valid points and no complete enumeration of invalid ones.",
 [M+"elliptic_curves/short_weierstrass/sw_curve.h", M+"elliptic_curves/short_weierstrass/affine_point.h", M+"circle/affine_point.h", M+"circle/circle.h"],
 [("curve equation and square root", M+"elliptic_curves/short_weierstrass/sw_curve.h")])
prop("C12", "Multi-scalar multiplication equals the sum of scalar products",
 "Variable-base (bucket) and fixed-base multi-scalar multiplication and endomorphism-decomposed scalar multiplication return exactly the sum of each scalar times its base, for every number of terms including none and one, every scalar including 0 and r-1, repeated, opposite and identity bases, every window size, and every way the work is split among threads. Inputs of unequal length are reported as an error.",
 ["inputs", "schedules", "configurations"], "all vectors of (base, scalar) up to a small length over the whole small group; all parallel strategies and thread counts",
 "The MSM adapters are not exercised single-window; tests use random scalars whose digits rarely trigger carries out of the top window, and one thread.",
 [M+"elliptic_curves/msm/algorithms/pippenger/pippenger.h", M+"elliptic_curves/msm/algorithms/pippenger/pippenger_base.h", M+"elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h", M+"elliptic_curves/msm/fixed_base_msm.h", M+"elliptic_curves/msm/glv.h", M+"elliptic_curves/msm/msm_ctx.h", M+"elliptic_curves/msm/variable_base_msm.h"],
 [("bucket accumulation and window recombination", M+"elliptic_curves/msm/algorithms/pippenger/pippenger.h"), ("work splitting strategies", M+"elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h")])
prop("C13", "Pairings are bilinear, non-degenerate and multiplicative over lists",
 "For the pairing-friendly curves, the pairing of aP and bQ equals the pairing of P and Q raised to ab, pairing with the identity gives one, pairing generators does not, and the multi-pairing of lists equals the product of the individual pairings, whether inputs are prepared in advance or not. This holds for every curve the library's generators accept (either twist type, either sign of the parameter), and the value is that of the optimal ate pairing of the curve.",
 ["inputs"], "all small scalars (including 0 and r-1 negatives) on both sides, all list lengths and orders, identity at all positions",
 "Tests check one random instance of bilinearity.",
 [M+"elliptic_curves/pairing/pairing.h", M+"elliptic_curves/bn/bn_curve.h", M+"elliptic_curves/bls12/bls12_curve.h", M+"elliptic_curves/pairing/pairing_friendly_curve.h", M+"elliptic_curves/pairing/g2_projective.h"],
 [("Miller loop and final exponentiation", M+"elliptic_curves/bn/bn_curve.h")])
prop("C14", "Univariate polynomials form a Euclidean ring with exact evaluation",
 "Dense and sparse polynomials support addition, subtraction, multiplication, scaling, division with remainder, evaluation, differentiation-free construction from roots, interpolation and formatting consistently with polynomial arithmetic over the field: (a op b)(x) = a(x) op b(x), a = q*b + r with deg r < deg b, and results are normalised so equal polynomials compare equal and have the right degree.",
 ["inputs", "histories"], "all polynomials up to a small degree over a small field in all dense/sparse mixes, including zero and leading-zero cancellation",
 "Tests evaluate one or two fixed polynomials per operator.",
 [M+"polynomials/univariate/univariate_dense_coefficients.h", M+"polynomials/univariate/univariate_sparse_coefficients.h", M+"polynomials/univariate/univariate_polynomial_ops.h", M+"polynomials/univariate/univariate_polynomial.h", M+"polynomials/univariate/lagrange_interpolation.h", M+"polynomials/univariate/univariate_evaluations_ops.h"],
 [("coefficient operators and high-degree trimming", M+"polynomials/univariate/univariate_polynomial_ops.h")])
prop("C15", "FFT domains transform exactly between coefficients and evaluations",
 "On every radix-2 and mixed-radix domain and coset, the transform of a polynomial is its list of evaluations at the domain points in order, the inverse transform is its inverse (also for inputs shorter than the domain), and the domain's elements, Lagrange coefficients, vanishing polynomial, filter and batch (matrix) transforms, with or without precomputed twiddles and low-degree extension, agree with their definitions.",
 ["inputs", "configurations"], "all domain sizes supported by small fields, all cosets, all input degrees, all basis polynomials (linearity), all matrix shapes",
 "Tests cover a few sizes with random polynomials, comparing implementations with each other.",
 [M+"polynomials/univariate/radix2_evaluation_domain.h", M+"polynomials/univariate/mixed_radix_evaluation_domain.h", M+"polynomials/univariate/univariate_evaluation_domain.h", M+"polynomials/univariate/two_adic_subgroup.h", M+"polynomials/univariate/naive_batch_fft.h", M+"polynomials/univariate/radix2_twiddle_cache.h"],
 [("butterflies and bit reversal", M+"polynomials/univariate/radix2_evaluation_domain.h")])
prop("C16", "Multilinear extensions, multivariate polynomials and sumcheck are sound",
 "Multilinear extensions and sparse multivariate polynomials evaluate, fix variables, add, subtract and multiply consistently with their definition. An honest sumcheck proof always verifies to the true hypercube sum, and a proof with any altered round message is rejected or yields a final claim that disagrees with the polynomial's evaluation.",
 ["inputs", "histories", "fault_sequences"], "all hypercube tables up to a few variables over a small field, all points, all numbers of factors, all single-message alterations",
 "Tests run one random polynomial and no tampered proofs.",
 [M+"polynomials/multivariate/multilinear_dense_evaluations.h", M+"polynomials/multivariate/multilinear_extension_ops.h", M+"polynomials/multivariate/multivariate_sparse_coefficients.h", M+"polynomials/multivariate/linear_combination.h", "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h", "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h", "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"],
 [("partial evaluation and round polynomial", "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h")])
prop("C17", "Field matrices, sparse matrices and packings keep their meaning",
 "Matrix and sparse-matrix construction, access, multiplication by vectors and matrices, row and column views, packing into SIMD rows, bit-reversed row order and dimension queries agree with plain two-dimensional arrays for every shape, including empty and non-square ones.",
 ["inputs", "configurations"], "all small shapes, sparsity patterns and storage orders",
 "Tests use one square example per operation.",
 [M+"matrix/matrix_operations.h", M+"matrix/matrix_utils.h", M+"matrix/sparse/sparse_matrix.h", M+"matrix/prime_field_num_traits.h", M+"matrix/matrix_types.h"],
 [("COO/ELL/CSR conversions", M+"matrix/sparse/sparse_matrix.h"), ("packed row extraction", M+"matrix/matrix_utils.h")])
prop("C18", "Results do not depend on threads or their interleaving",
 "Every operation that may run on several threads (batch inversion, power tables, sums, transforms, polynomial and matrix operations, multi-scalar multiplication, Merkle hashing, chunked parallel loops) gives the same result as the single-threaded computation, for every thread count, every work assignment and every interleaving; no two concurrent parts touch the same memory with a write.",
 ["schedules", "configurations", "inputs"], "all thread counts 1..8, all execution orders and interleavings of the parallel regions' threads, all dynamic work assignments, all input sizes around the chunking thresholds",
 "The test build has no parallel runtime at all, and a normal run would see one schedule; races and order dependence need an adversarial schedule or thread count.",
 ["tachyon/base/openmp_util.h", "tachyon/base/parallelize.h", M+"base/groups.h", M+"base/semigroups.h", M+"polynomials/univariate/radix2_evaluation_domain.h", M+"elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h", M+"polynomials/univariate/univariate_polynomial_ops.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"],
 [("static chunking of loops", "tachyon/base/parallelize.h"), ("OpenMP regions", "tachyon/base/openmp_util.h")])
prop("C19", "Algebraic hashes follow their specification for every message length",
 "The Poseidon and Poseidon2 permutations equal their round-by-round definition from the published parameters (optimised and sparse forms included), are injective, and the duplex and padding-free sponges absorb and squeeze such that any split of a message into absorb calls and any interleaving of squeezes gives the result of the reference duplex construction.",
 ["inputs", "histories", "configurations"], "all absorb/squeeze call sequences up to a depth with all chunk sizes around the rate; all state basis vectors for each parameter set",
 "Tests check a few fixed vectors with one absorb pattern.",
 ["tachyon/crypto/hashes/sponge/poseidon/poseidon.h", "tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h", "tachyon/crypto/hashes/sponge/poseidon/poseidon_grain_lfsr.h", "tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h", "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h", "tachyon/crypto/hashes/sponge/padding_free_sponge.h", "tachyon/crypto/hashes/sponge/duplex_sponge_mode.h", "tachyon/crypto/hashes/sponge/truncated_permutation.h"],
 [("duplex mode state machine", "tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h")])
prop("C20", "Transcripts and challengers bind every challenge to the whole history",
 "Prover and verifier transcripts (and the duplex, hash and multi-field challengers) that see the same sequence of observations derive the same challenges at the same points; a challenge changes when any earlier observed value or its order changes; and grinding accepts exactly the witnesses whose check succeeds with the requested number of zero bits.",
 ["histories", "inputs"], "all sequences of observe/sample operations up to a depth, all single changes of a history, all bit counts",
 "Tests compare one fixed history with a fixed vector.",
 ["tachyon/crypto/challenger/duplex_challenger.h", "tachyon/crypto/challenger/hash_challenger.h", "tachyon/crypto/challenger/multi_field32_challenger.h", "tachyon/crypto/challenger/challenger.h", "tachyon/crypto/transcripts/transcript.h", "tachyon/crypto/transcripts/simple_transcript.h", "tachyon/zk/plonk/halo2/blake2b_transcript.h", "tachyon/zk/plonk/halo2/sha256_transcript.h", "tachyon/zk/plonk/halo2/poseidon_transcript.h", "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"],
 [("input/output buffers of the duplex state", "tachyon/crypto/challenger/duplex_challenger.h")])
prop("C21", "Merkle commitments open exactly what was committed",
 "For binary and multi-matrix field Merkle trees of every shape, each honestly created opening verifies against the root, the opened values are the committed rows, and changing any leaf, sibling, opened value, index, dimension or root makes verification fail.",
 ["inputs", "fault_sequences", "configurations"], "all leaf counts and matrix-height combinations up to a bound, all indices, all single-element alterations",
 "Tests open a few indices of one or two shapes and alter one value.",
 ["tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h", "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_proof.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"],
 [("layer construction and injection of shorter matrices", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h")])
prop("C22", "FRI accepts exactly low-degree, correctly opened polynomials",
 "For every set of committed matrices, blow-up factor, number of queries and opening points, an honest low-degree proof verifies; altering any opened value, commitment, query index, folding value, final polynomial or proof-of-work witness makes verification fail; and folding halves the degree exactly as the definition says.",
 ["inputs", "fault_sequences", "configurations"], "all shapes up to a bound, all configurations up to a bound, all single-element alterations of the proof",
 "Tests run one or two honest proofs and no tampering.",
 ["tachyon/crypto/commitments/fri/two_adic_fri.h", "tachyon/crypto/commitments/fri/prove.h", "tachyon/crypto/commitments/fri/verify.h", "tachyon/crypto/commitments/fri/simple_fri.h", "tachyon/crypto/commitments/fri/fri_config.h", "tachyon/crypto/commitments/fri/lagrange_selectors.h", "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"],
 [("commit/query phases", "tachyon/crypto/commitments/fri/prove.h"), ("verification", "tachyon/crypto/commitments/fri/verify.h")])
prop("C23", "Polynomial commitments are homomorphic, complete and binding to openings",
 "Commitments in coefficient and evaluation form agree and are linear; single and batched opening proofs (GWC, SHPLONK) created for true evaluations verify, for every arrangement of polynomials and shared or distinct opening points; and a proof fails to verify when any claimed evaluation, point, commitment or proof element is altered. Vector commitments equal the sum of generators weighted by the entries plus blinding.",
 ["inputs", "fault_sequences", "configurations"], "all arrangements of up to three polynomials over up to three points, all polynomial lengths up to the setup size, all single alterations",
 "Tests run one fixed arrangement without tampering; this code is not even part of the reliably built tests.",
 ["tachyon/crypto/commitments/kzg/kzg.h", "tachyon/crypto/commitments/kzg/gwc.h", "tachyon/crypto/commitments/kzg/shplonk.h", "tachyon/crypto/commitments/kzg/kzg_family.h", "tachyon/crypto/commitments/polynomial_openings.h", "tachyon/crypto/commitments/pedersen/pedersen.h", "tachyon/crypto/commitments/univariate_polynomial_commitment_scheme.h"],
 [("opening grouping by point", "tachyon/crypto/commitments/polynomial_openings.h"), ("pairing check", "tachyon/crypto/commitments/kzg/shplonk.h")])
prop("C24", "R1CS, QAP and Groth16 accept exactly satisfying assignments",
 "A rank-1 constraint system reports satisfied exactly when every constraint holds, its matrices and QAP reduction represent the same constraints (the QAP divides exactly when satisfied), and a Groth16 proof of a satisfying assignment verifies while a wrong public input or any altered proof element does not.",
 ["inputs", "fault_sequences", "configurations"], "all small constraint systems over a small field with all assignments; all linear-combination forms; all alterations of a Groth16 proof",
 "Tests use one multiplication circuit and one witness.",
 ["tachyon/zk/r1cs/constraint_system/constraint_system.h", "tachyon/zk/r1cs/constraint_system/linear_combination.h", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h", "tachyon/zk/r1cs/groth16/prove.h", "tachyon/zk/r1cs/groth16/verify.h", "tachyon/zk/r1cs/groth16/proving_key.h"],
 [("inlining of linear combinations", "tachyon/zk/r1cs/constraint_system/constraint_system.h"), ("instance/witness map", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h")])
prop("C25", "Lookup, shuffle and copy arguments hold exactly for valid witnesses",
 "For lookup (permutation-based and log-derivative), shuffle and copy-constraint (permutation) arguments, the polynomials a prover builds satisfy the argument's identities on every row exactly when the witness is valid: each input value occurs in the table, the multisets match, or linked cells are equal. Linking cells yields exactly the equivalence relation generated by the links, independently of their order.",
 ["inputs", "histories"], "all small columns/tables over a small alphabet, all sequences of copy links up to a depth",
 "Tests run one valid witness each.",
 ["tachyon/zk/lookup/halo2/permute_expression_pair.h", "tachyon/zk/lookup/halo2/prover_impl.h", "tachyon/zk/lookup/log_derivative_halo2/prover_impl.h", "tachyon/zk/shuffle/prover_impl.h", "tachyon/zk/plonk/permutation/cycle_store.cc", "tachyon/zk/plonk/permutation/permutation_assembly.h", "tachyon/zk/plonk/permutation/grand_product_argument.h", "tachyon/zk/plonk/permutation/permutation_prover_impl.h"],
 [("cycle merging", "tachyon/zk/plonk/permutation/cycle_store.cc"), ("permuted column construction", "tachyon/zk/lookup/halo2/permute_expression_pair.h")])
prop("C26", "Constraint expressions mean the same in every evaluator",
 "An expression tree has one value for given column data and challenges: direct evaluation by prover and verifier evaluators, the flattened calculation graph used by the prover, and evaluation after selector compression all agree, and the reported degree bounds the true degree. Compressing selectors never merges selectors enabled on a common row and never exceeds the allowed degree. A constraint system keeps exactly the gates, lookups, shuffles and queries it was configured with: splitting lookups into arguments looks every input up in its own table within the degree, expressions get the index of the query they make, and the reported degree and blinding factors are those of the whole configuration.",
 ["inputs", "programs"], "all expression trees up to a depth over every node kind, all rotations and row counts, all selector activation patterns up to a bound",
 "Tests evaluate single-node expressions.",
 ["tachyon/zk/expressions/expression_factory.h", "tachyon/zk/plonk/expressions/proving_evaluator.h", "tachyon/zk/plonk/expressions/verifying_evaluator.h", "tachyon/zk/plonk/vanishing/graph_evaluator.h", "tachyon/zk/plonk/vanishing/custom_gate_evaluator.h", "tachyon/zk/plonk/constraint_system/selector_compressor.h", "tachyon/zk/plonk/constraint_system/exclusion_matrix.h", "tachyon/zk/plonk/constraint_system/constraint_system.h", "tachyon/zk/plonk/expressions/evaluator/selector_replacer.h"],
 [("graph construction with common-subexpression sharing", "tachyon/zk/plonk/vanishing/graph_evaluator.h"), ("selector colouring", "tachyon/zk/plonk/constraint_system/selector_compressor.h")])
prop("C27", "Floor planners place regions without overlap and keep assignments",
 "For every set of region shapes, each planner places every region so that no two regions share a cell of a column, every assignment made inside a region lands in the cell given by the region's start plus offset, constants are assigned to free fixed cells and copy-linked, and the planner reports running out of rows instead of overflowing.",
 ["inputs", "histories", "programs"], "all sequences of region shapes up to a bound (columns, heights, constants), for the simple and the two-pass planner",
 "Tests plan one list of regions and check one expected layout.",
 ["tachyon/zk/plonk/layout/floor_planner/allocations.h", "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h", "tachyon/zk/plonk/layout/floor_planner/single_chip_layouter.h", "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.h", "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.cc", "tachyon/zk/plonk/layout/floor_planner/v1/v1_plan.h", "tachyon/zk/plonk/layout/region_shape.h"],
 [("first-fit slot search", "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.cc")])
prop("C28", "PLONK proofs verify exactly for satisfied circuits",
 "A proof produced from a satisfying witness verifies under the matching key and public inputs, for each commitment scheme and lookup type; a proof for a violated circuit, wrong public inputs, or with any byte altered, removed or swapped is rejected.",
 ["inputs", "fault_sequences", "configurations"], "all example circuits, commitment schemes and lookup types; all single-byte (or single-element) proof alterations; all public-input alterations",
 "Tests check fixed proofs of fixed circuits and hardly any rejection.",
 ["tachyon/zk/plonk/halo2/prover.h", "tachyon/zk/plonk/halo2/verifier.h", "tachyon/zk/plonk/halo2/argument_data.h", "tachyon/zk/plonk/halo2/proof_reader.h", "tachyon/zk/plonk/keys/proving_key.h", "tachyon/zk/plonk/keys/verifying_key.h", "tachyon/zk/plonk/vanishing/vanishing_prover_impl.h", "tachyon/zk/plonk/vanishing/vanishing_verifier.h"],
 [("Fiat-Shamir ordering of commitments and evaluations", "tachyon/zk/plonk/halo2/prover.h")])
prop("C29", "Containers, views and callbacks behave like their reference models",
 "The circular deque, stack, chunked/zipped/reversed views, container utilities, optional-ownership wrappers, scoped holders, callbacks and function references behave like the corresponding plain data structure for every sequence of operations: same contents, order, sizes and iterator positions, every element destroyed exactly once, and no access outside the storage.",
 ["histories", "inputs"], "all operation sequences up to a depth from every reachable internal layout (wrap-around positions, capacities)",
 "Tests follow a few scripted sequences.",
 ["tachyon/base/containers/circular_deque.h", "tachyon/base/containers/vector_buffer.h", "tachyon/base/containers/adapters.h", "tachyon/base/containers/chunked_iterator.h", "tachyon/base/containers/zipped_iterator.h", "tachyon/base/containers/container_util.h", "tachyon/base/containers/cxx20_erase.h", "tachyon/base/maybe_owned.h", "tachyon/base/scoped_generic.h", "tachyon/base/auto_reset.h", "tachyon/base/functional/callback.h", "tachyon/base/parallelize.h"],
 [("ring-buffer index arithmetic", "tachyon/base/containers/circular_deque.h")])
prop("C30", "Checked, clamped and saturating numerics match exact integer arithmetic",
 "Checked arithmetic and conversions report validity exactly when the true result fits the type and then give it; clamped arithmetic and saturating conversions give the true result clipped to the range; for all signed/unsigned and width combinations and for floating point inputs including NaN and infinities.",
 ["inputs", "configurations"], "all pairs of 8-bit operands for every operator and all boundary values of wider and mixed types",
 "Tests enumerate boundary cases by hand for some type pairs.",
 ["tachyon/base/numerics/checked_math.h", "tachyon/base/numerics/checked_math_impl.h", "tachyon/base/numerics/clamped_math.h", "tachyon/base/numerics/clamped_math_impl.h", "tachyon/base/numerics/safe_conversions.h", "tachyon/base/numerics/safe_conversions_impl.h", "tachyon/base/numerics/safe_math_shared_impl.h", "tachyon/base/bits.h"],
 [("range checks by type traits", "tachyon/base/numerics/safe_conversions_impl.h")])
prop("C31", "Number and string conversions are exact inverses and reject bad input",
 "Converting any integer to decimal or hexadecimal text and parsing it back gives the same number, and parsing accepts exactly the well-formed in-range numerals (an optional sign, digits, surrounding ASCII white space): everything else (empty text, stray characters, inner white space, overflow by one) is reported as a failure, out-of-range numerals with the clipped value. Floating-point parsing is correctly rounded. Hex and byte conversions, case, trim, prefix and replace helpers agree with a naive reference.",
 ["inputs"], "all strings up to a length over a small alphabet of digits, signs, letters, blanks; all 8/16-bit numbers and boundary neighbours of wider ones",
 "Tests list some dozens of cases.",
 ["tachyon/base/strings/string_number_conversions.cc", "tachyon/base/strings/string_number_conversions_internal.h", "tachyon/base/strings/string_util.h", "tachyon/base/strings/string_util.cc", "tachyon/base/strings/string_util_internal.h", "tachyon/base/strings/rust_stringifier.h"],
 [("digit accumulation with overflow check", "tachyon/base/strings/string_number_conversions_internal.h")])
prop("C32", "File paths and file I/O are exact under any system-call behaviour",
 "Path operations (directory, base name, extension, append, components, parent tests) obey their documented algebra for every path string. Reading and writing whole files and ranges transfers exactly the requested bytes or reports failure, whatever combination of short transfers, interruptions and errors the operating system returns, and descriptors are neither leaked nor closed twice.",
 ["inputs", "fault_sequences"], "all paths up to a length over {/, ., letter}; all sequences of short/interrupted/failed system calls up to a depth",
 "Tests run on a real file system that never returns short transfers or interruptions.",
 ["tachyon/base/files/file_path.cc", "tachyon/base/files/file_posix.cc", "tachyon/base/files/file_util_posix.cc", "tachyon/base/files/file_util.cc", "tachyon/base/files/bin_file.cc", "tachyon/base/files/file.cc", "tachyon/base/files/scoped_file.cc", "tachyon/base/posix/eintr_wrapper.h", "tachyon/base/files/file_enumerator.cc"],
 [("retry loops around read/write", "tachyon/base/files/file_posix.cc")])
prop("C33", "Command-line parsing assigns exactly what the arguments say",
 "For every argument list, the flag parser either fills each flag with the value its long or short form, separate or '=' form, positional or subcommand argument denotes, enforcing required flags, choices, validators and sequence flags, or reports an error; no argument is silently dropped or assigned to another flag.",
 ["inputs", "histories"], "all argument lists up to a length over an alphabet of flag forms and values; all flag kinds",
 "Tests pick a few argument lists.",
 ["tachyon/base/flag/flag_parser.cc", "tachyon/base/flag/flag_parser.h", "tachyon/base/flag/flag.h", "tachyon/base/flag/flag_value_traits.h", "tachyon/base/flag/numeric_flags.h", "tachyon/base/time/time_delta_flag.h", "tachyon/base/files/file_path_flag.h"],
 [("argument consumption loop", "tachyon/base/flag/flag_parser.cc")])
prop("C34", "Time values convert and compute without loss or wrap-around",
 "Time points and durations saturate at minimum and maximum instead of wrapping, arithmetic and comparison agree with exact integer microseconds, unit conversions round as documented, and converting to and from calendar, POSIX and string forms is the identity wherever representable and reports failure otherwise.",
 ["inputs"], "all boundary durations (zero, units +/-1, extremes, infinities) in all operator pairs; all calendar days over several years including leap days",
 "Tests check some dates and durations.",
 ["tachyon/base/time/time.h", "tachyon/base/time/time.cc", "tachyon/base/time/time_conversion_posix.cc", "tachyon/base/time/time_delta_flag.h", "tachyon/base/time/time_interval.h", "tachyon/base/time/time_stamp.h"],
 [("saturated arithmetic", "tachyon/base/time/time.h")])
prop("C35", "The C and C++ binding layers mirror the core library",
 "Every exported C function and C++ wrapper on fields, points, matrices, polynomials, domains, multi-scalar multiplication and random generators returns exactly what the core operation returns for the converted arguments, and handles release their objects exactly once.",
 ["inputs", "histories"], "all exported functions on boundary values and all small operation sequences",
 "Tests exercise each function on one random value.",
 ["tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc", "tachyon/c/math/elliptic_curves/generator/generator.cc", "tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc", "tachyon/cc/math/elliptic_curves/generator/generator.cc", "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations.cc", "tachyon/c/math/elliptic_curves/msm/msm.h"],
 [("type casting between C structs and core types", "tachyon/c/base/type_traits_forward.h")])
prop("C36", "Deterministic random generators reproduce and resume their stream",
 "A generator seeded with given bytes produces the published stream, the same for any split into 8-, 32- and 64-bit draws as defined; writing out its state at any point and reading it back continues with the same outputs; and different seeds give different streams.",
 ["histories", "inputs"], "all sequences of draw and save/restore operations up to a depth, over several seeds",
 "Tests compare one fixed prefix and no save/restore in mid-block.",
 ["tachyon/crypto/random/rng.h", "tachyon/crypto/random/block_rng.h", "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h", "tachyon/crypto/random/xor_shift/xor_shift_rng.h", "tachyon/c/crypto/random/rng.cc"],
 [("block buffer index", "tachyon/crypto/random/block_rng.h")])
prop("C37", "AIR expressions and selectors mean the same to every evaluator",
 "An AIR constraint expression evaluates on a row window exactly as its tree says for every variable kind and next-row access, first-row, last-row and transition selectors are non-zero exactly on their rows, and a recorded constraint system lists exactly the constraints it was given.",
 ["inputs", "programs"], "all expression trees up to a depth and all rows of small traces",
 "Tests evaluate single-node expressions.",
 ["tachyon/zk/air/constraint_system/constraint_system.h", "tachyon/zk/air/expressions/air_evaluator.h", "tachyon/zk/air/expressions/expression_factory.h", "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"],
 [("AIR evaluator", "tachyon/zk/air/expressions/air_evaluator.h")])
prop("C38", "The tracking allocator accounts for every allocation and frees last",
 "For every interleaving of allocations, deallocations and statistics queries from several users, reported sizes and high-water marks equal the true sums, identifiers are unique, and the tracker lives until its owner and all outstanding allocations are gone and is released exactly once.",
 ["histories", "schedules"], "all operation sequences up to a depth and all interleavings of two or three threads of operations at lock granularity",
 "Tests follow one scripted sequence on one thread.",
 ["tachyon/device/tracking_allocator.cc", "tachyon/device/tracking_allocator.h", "tachyon/device/allocator.h", "tachyon/device/allocator_registry.cc"],
 [("reference count and mutex", "tachyon/device/tracking_allocator.cc")],
 state=[("ref_", "outstanding allocations plus owner", "tachyon/device/tracking_allocator.h")])
prop("C39", "Range algorithms and sorting equal their naive definitions",
 "Every range algorithm (searching, comparing, partitioning, sorting, merging, set, heap, permutation and transformation algorithms, with projections and comparators), and the sorting and parallel chunking helpers, give the result of the naive definition for all inputs.",
 ["inputs"], "all sequences up to a length over a small alphabet, all split points, all projections",
 "Tests check one or two example arrays per algorithm.",
 ["tachyon/base/ranges/algorithm.h", "tachyon/base/ranges/functional.h", "tachyon/base/ranges/ranges.h", "tachyon/base/sort.h", "tachyon/base/range.h", "tachyon/base/bits.h"],
 [("projection-composed standard algorithms", "tachyon/base/ranges/algorithm.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
        for x in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + x): print("missing", p["id"], x)
print(len(P))

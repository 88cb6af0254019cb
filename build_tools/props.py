#!/usr/bin/env python3
"""Source of properties.jsonl: writes it next to MANIFEST.json.

P(id, title, statement, over, text, why, files, mechanism)
"""
import json
import os

OUT = []


def P(id, title, statement, over, text, why, files, mechanism, observe=()):
    assert len(title) <= 80, title
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": None},
    })


P("C01", "Fixed-width integers compute exact unsigned integer arithmetic",
  "For every width and every pair of operands, addition, subtraction, doubling, halving, shifts, multiplication (low, high and full), squaring, division, remainder, modular inversion, comparison and bitwise operations on fixed-width big integers equal the same operation on mathematical integers, with the carry, borrow or discarded bits reported exactly. "
  "Converting to and from decimal and hexadecimal text, byte strings of either endianness, bit lists of either endianness, machine integers and arbitrary-precision integers preserves the value, rejects what does not fit, and the non-adjacent form, bit iterators and bit extraction describe that same value.",
  ["inputs"], "all operand values of every supported width, including zero, powers of two, all-ones and carry-propagating patterns",
  "the unit tests use a handful of literals; carries between limbs, borrows and quotient corrections depend on the exact bit pattern of both operands",
  ["tachyon/math/base/big_int.h", "tachyon/math/base/big_int.cc", "tachyon/math/base/arithmetics.h", "tachyon/math/base/bit_iterator.h", "tachyon/math/base/byinverter.h", "tachyon/math/base/gmp/gmp_util.h", "tachyon/base/bits.h"],
  [("limb-wise carry chains", "tachyon/math/base/big_int.h"), ("Bernstein-Yang inversion", "tachyon/math/base/byinverter.h"), ("text and byte conversion", "tachyon/math/base/big_int.cc")])

P("C02", "Every prime field is exactly the integers modulo its prime",
  "For each supported prime field (31-bit, 64-bit and 254 to 381-bit ones, base and scalar fields of every curve) every operation on every pair of elements - addition, subtraction, negation, doubling, multiplication, squaring, inversion, division, exponentiation, square root and quadratic residuosity - agrees with integer arithmetic modulo the prime, in place or not, and equality, ordering, zero and one tests agree with the canonical representative. "
  "Conversion from and to integers, big integers, text, bytes and Montgomery form is exact modulo the prime, and the published generator and two-adic roots of unity have the orders they claim.",
  ["inputs"], "all pairs of elements of all supported prime fields, with representatives near 0, the prime, powers of two and limb borders",
  "a test samples some random products; a missed final reduction, an off-by-one bound or a wrong constant shows only for operands in a tiny part of the range and only in some fields",
  ["tachyon/math/finite_fields/prime_field_fallback.h", "tachyon/math/finite_fields/prime_field_base.h", "tachyon/math/finite_fields/small_prime_field.h", "tachyon/math/finite_fields/small_prime_field_mont.h", "tachyon/math/finite_fields/mersenne31/mersenne31.h", "tachyon/math/finite_fields/goldilocks/goldilocks.h", "tachyon/math/finite_fields/modulus.h", "tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc", "tachyon/math/finite_fields/square_root_algorithms/tonelli_shanks.h"],
  [("Montgomery multiplication and reduction", "tachyon/math/finite_fields/prime_field_fallback.h"), ("generated constants", "tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc")])

P("C03", "Extension fields are the stated quotient rings over their base fields",
  "Every supported extension field (degrees 2, 3, 4, 6 and 12, towers included) adds, subtracts, multiplies, squares, inverts and divides exactly as polynomials over the base field reduced by its defining relation, also when one operand lies in a subfield. "
  "Frobenius maps equal raising to the corresponding power of the characteristic, norm and conjugation satisfy their definitions, the cyclotomic squaring, inversion and exponentiation agree with the generic ones on the cyclotomic subgroup, and conversions between base, prime and extension elements, text, bytes and JSON are lossless.",
  ["inputs"], "all elements of every supported extension field, including those with zero coordinates and subfield members",
  "the tests check a few fixed vectors; a wrong cross term, non-residue or Frobenius coefficient cancels for many special inputs",
  ["tachyon/math/finite_fields/quadratic_extension_field.h", "tachyon/math/finite_fields/cubic_extension_field.h", "tachyon/math/finite_fields/quartic_extension_field.h", "tachyon/math/finite_fields/fp2.h", "tachyon/math/finite_fields/fp6.h", "tachyon/math/finite_fields/fp12.h", "tachyon/math/finite_fields/extension_field_base.h", "tachyon/math/finite_fields/cyclotomic_multiplicative_subgroup.h"],
  [("Karatsuba/Toom-style multiplication and squaring", "tachyon/math/finite_fields/*_extension_field.h"), ("Frobenius coefficients", "tachyon/math/finite_fields/fp*.h")])

P("C04", "Binary tower fields are GF(2^k) in the Fan-Paar tower",
  "Binary tower fields of 1 to 128 bits add, multiply, square, invert and divide exactly as the recursive tower of quadratic extensions of GF(2) they are defined by, for all operands. "
  "Multiplication of an element by an element of a smaller field of the tower equals multiplication after embedding, and packing into and unpacking from subfield elements, integers and text is lossless.",
  ["inputs"], "all pairs for the fields up to 8 bits, arbitrary and border values for the larger ones",
  "tests cover few values of each width; lookup tables and recursion have one entry or branch per value",
  ["tachyon/math/finite_fields/binary_fields/binary_field.h", "tachyon/math/finite_fields/binary_fields/binary_fields.h", "tachyon/math/finite_fields/binary_fields/binary_tower_operations.h"],
  [("table-driven and recursive multiplication", "tachyon/math/finite_fields/binary_fields/binary_tower_operations.h")])

P("C05", "Packed SIMD field vectors behave lane by lane like the scalar field",
  "For each 31-bit field, every operation on a packed vector (arithmetic, negation, doubling, squaring, inversion, exponentiation, broadcast, mixed scalar operands, constants, and packed extension fields) yields in every lane exactly what the scalar field yields for that lane's operands, whichever instruction set the build selects. "
  "Reading or writing one lane involves only that lane, and the packed powers of an extension field element enumerate its successive powers lane by lane.",
  ["inputs", "configurations"], "all operand vectors, with different border values in different lanes, for the instruction sets that the machine supports",
  "the tests use random vectors, in which a missed conditional reduction in one lane has a chance of about 2^-31",
  ["tachyon/math/finite_fields/packed_prime_field32_avx2.h", "tachyon/math/finite_fields/packed_prime_field32_avx512.h", "tachyon/math/finite_fields/packed_prime_field_base.h", "tachyon/math/finite_fields/baby_bear/internal", "tachyon/math/finite_fields/koala_bear/internal", "tachyon/math/finite_fields/mersenne31/internal"],
  [("vectorised Montgomery multiplication", "tachyon/math/finite_fields/packed_prime_field32_avx2.h")])

P("C06", "Generic group, ring and field algorithms equal their naive definitions",
  "Exponentiation by every method, scalar multiplication by every scalar representation, precomputed power tables, sums and multi-sums, sequences of successive powers (also in bit-reversed order), linear combinations of either direction, inner products, batch inversion, batched point normalisation, extended greatest common divisor and rational (numerator/denominator) arithmetic give exactly the result of their textbook definition over any supported group, ring or field. "
  "This includes empty, single-element and large inputs, zero elements among invertible ones, and exponents of any width.",
  ["inputs"], "all lengths, exponents and element values, zeros included",
  "tests use one or two short vectors; windowing, chunk borders and skipped zeros need particular lengths and positions",
  ["tachyon/math/base/semigroups.h", "tachyon/math/base/groups.h", "tachyon/math/base/ring.h", "tachyon/math/base/field.h", "tachyon/math/base/rational_field.h", "tachyon/math/base/egcd.h"],
  [("double-and-add and windowed powers", "tachyon/math/base/semigroups.h"), ("Montgomery batch inversion", "tachyon/math/base/groups.h")])

P("C07", "FFT evaluation domains evaluate and interpolate exactly",
  "For every supported field and domain size (powers of two and mixed-radix sizes, with any coset offset) the forward transform of a polynomial is its list of values at the domain elements in order, also when the polynomial has fewer coefficients than the domain has elements, and the inverse transform recovers the polynomial. "
  "Lagrange coefficients, the vanishing polynomial and its values, filter polynomials, coset derivation, element access, batched transforms and coset low-degree extensions of matrices (in natural or bit-reversed order) equal their mathematical definitions.",
  ["inputs", "configurations"], "all polynomials, domain sizes and offsets; evaluation points inside and outside the domain",
  "tests evaluate a few sizes with random polynomials; degree-aware shortcuts depend on the relation of degree and size",
  ["tachyon/math/polynomials/univariate/radix2_evaluation_domain.h", "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h", "tachyon/math/polynomials/univariate/univariate_evaluation_domain.h", "tachyon/math/polynomials/univariate/two_adic_subgroup.h", "tachyon/math/polynomials/univariate/naive_batch_fft.h"],
  [("butterflies, twiddles, bit reversal", "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h")])

P("C08", "Univariate polynomial arithmetic satisfies the ring laws pointwise",
  "For all dense and sparse polynomials, addition, subtraction, negation, scaling, multiplication, division with remainder, evaluation, folding, vanishing-polynomial multiplication and division, and conversion between dense and sparse form agree with coefficient-wise schoolbook arithmetic, in place or not and in any mix of representations, and results never carry leading zero coefficients that change degree or equality. "
  "Operations on evaluation form agree pointwise, roots determine the monic polynomial that vanishes exactly there, and interpolation through distinct points returns the unique polynomial of lower degree.",
  ["inputs"], "all pairs of polynomials including zero, constants, equal degrees with cancelling leading terms, and sparse ones with gaps",
  "tests fix one pair of polynomials per operator; cancellation, trailing-zero removal and mixed-representation code need special shapes",
  ["tachyon/math/polynomials/univariate/univariate_dense_coefficients.h", "tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h", "tachyon/math/polynomials/univariate/univariate_polynomial_ops.h", "tachyon/math/polynomials/univariate/univariate_evaluations_ops.h", "tachyon/math/polynomials/univariate/lagrange_interpolation.h"],
  [("normalisation after each operation", "tachyon/math/polynomials/univariate/univariate_dense_coefficients.h")])

P("C09", "Multivariate and multilinear polynomials evaluate as their definition",
  "Multilinear extensions given by their values on the Boolean hypercube evaluate anywhere to the multilinear interpolation, fixing leading variables commutes with evaluation, and their arithmetic is pointwise. "
  "Sparse multivariate polynomials in any number of variables add, subtract, negate, compare and evaluate, and report their degree and coefficients, exactly like the formal sums of monomials they denote, with equal terms merged and zero terms removed, and linear combinations of products of multilinear extensions evaluate, and sum over the hypercube, accordingly.",
  ["inputs"], "all numbers of variables, evaluation points and term lists with repeated variables, repeated monomials and cancelling coefficients",
  "tests fix one or two small polynomials",
  ["tachyon/math/polynomials/multivariate"],
  [("variable fixing", "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"), ("term merging", "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h")])

P("C10", "Elliptic curve points follow the group law in every representation",
  "On every supported curve, addition, mixed addition, subtraction, doubling, negation, scalar multiplication and equality of points agree with the affine chord-and-tangent group law in affine, projective, Jacobian and extended-Jacobian coordinates, for all operands including the identity, equal and opposite points and non-normalised coordinates. "
  "Conversion between representations, one by one or in batches, keeps the point; construction from a coordinate finds a point on the curve exactly when one exists; on-curve tests, curve endomorphisms, hexadecimal and text forms are faithful.",
  ["inputs"], "all pairs of points, in all pairs of representations, with arbitrary scaling of the projective coordinates",
  "tests use a toy curve with few points and random points of the big ones, which never hit equal, opposite or identity operands in mixed representations with a non-trivial scale",
  ["tachyon/math/elliptic_curves/short_weierstrass", "tachyon/math/geometry"],
  [("complete case analysis in the addition formulas", "tachyon/math/elliptic_curves/short_weierstrass/*_impl.h")])

P("C11", "Multi-scalar multiplication equals the sum of the scalar products",
  "For every curve, number of points, thread partitioning, window and bucket configuration and list of scalars, variable-base and fixed-base multi-scalar multiplication return the same point as adding up the individual scalar multiples. "
  "Zero, one, maximal, repeated and negated scalars, identity and repeated points are included, mismatched lengths are refused, and endomorphism-based scalar decomposition represents the same scalar.",
  ["inputs", "configurations"], "all scalar and point vectors up to a few thousand entries and all configurations",
  "tests use uniform random or equal scalars; carries between signed windows and bucket collisions need particular digit patterns",
  ["tachyon/math/elliptic_curves/msm"],
  [("signed window decomposition and buckets", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h"), ("scalar decomposition", "tachyon/math/elliptic_curves/msm/glv.h")])

P("C12", "The pairings are bilinear, non-degenerate and consistent",
  "For each pairing-friendly curve the pairing of scalar multiples is the pairing raised to the product of the scalars, the pairing with the identity is one, the pairing of the generators has exactly the order of the group, and swapping signs inverts. "
  "A product of pairings computed together equals the product of the individual pairings, whatever the list, and whichever preparation of the second-group points is used.",
  ["inputs"], "all scalars, including 0, 1, -1, and lists of pairs with identities",
  "two tests check one random instance each",
  ["tachyon/math/elliptic_curves/pairing", "tachyon/math/elliptic_curves/bn/bn_curve.h", "tachyon/math/elliptic_curves/bls12/bls12_curve.h", "tachyon/math/elliptic_curves/bn/g2_prepared.h", "tachyon/math/elliptic_curves/bls12/g2_prepared.h"],
  [("Miller loop and final exponentiation", "tachyon/math/elliptic_curves/bn/bn_curve.h")])

P("C13", "The circle group of the Mersenne field is a cyclic group on x^2+y^2=1",
  "Points of the unit circle over the Mersenne prime field and its extensions form a commutative group under the published addition, doubling, negation and scalar multiplication, which agree with complex multiplication, and the published generator has the full group order. ",
  ["inputs"], "all pairs of points and scalars",
  "tests check one sum and one double",
  ["tachyon/math/circle"],
  [("addition formula", "tachyon/math/circle/affine_point.h")])

P("C14", "Matrix utilities agree with the mathematical matrix",
  "Sparse matrices built from any list of entries, dense matrices and their conversions represent the same matrix; multiplying by vectors and matrices, transposing, extracting rows, reordering and packing rows equals the entry-by-entry definition over the field. "
  "Serialised matrices read back equal.",
  ["inputs"], "all shapes, including empty rows, one row, one column, and sizes that are not multiples of the packing width",
  "tests use one small matrix each",
  ["tachyon/math/matrix"],
  [("compressed sparse rows, packed row access", "tachyon/math/matrix/matrix_utils.h")])

P("C15", "Sponge hash functions compute the specified permutation and padding",
  "The algebraic permutations compute, for every state, the composition of full and partial rounds that their parameters define, whatever optimised form (sparse matrices, packed vectors, structured matrix multiplication) is used, and are injective. "
  "Absorbing and squeezing in any split of the input and output into non-empty calls gives the same stream as doing it at once, and the derived hashers and compressors equal the permutation applied to their padded input.",
  ["inputs", "histories"], "all states, all sequences of absorb and squeeze calls of any positive lengths",
  "tests compare one or two known vectors and one order of calls",
  ["tachyon/crypto/hashes/sponge", "tachyon/crypto/hashes/sponge/poseidon", "tachyon/crypto/hashes/sponge/poseidon2"],
  [("optimised partial rounds", "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"), ("duplex mode bookkeeping", "tachyon/crypto/hashes/sponge/sponge_state.h")])

P("C16", "Merkle trees commit to exactly one list of leaves",
  "For any leaves (or any set of matrices of different heights) the root equals the recursive hash definition, an opening of any committed index returns the committed value and verifies, and an opening of the same shape with a changed value, root or sibling digest, or with another index within the tree (whose path differs), is rejected; an index that is only padding in one of the matrices is refused instead of opened. ",
  ["inputs"], "all tree sizes, sets of matrices, indices and single-place modifications of proofs",
  "tests build one tree and try a few indices",
  ["tachyon/crypto/commitments/merkle_tree", "tachyon/crypto/commitments/vector_commitment_scheme.h", "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"],
  [("sibling path recomputation", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h")])

P("C17", "Low-degree tests accept honest polynomials and reject tampering",
  "The FRI-based commitment schemes accept every honestly produced opening proof, for any set of matrices, heights, opening points outside the committed evaluation domains and parameters, with opened values equal to those of the interpolated polynomials, and reject a proof whose claimed value, commitment, query answer, folded value, final value or proof-of-work witness was changed in any place (keeping its shape), and words far from low degree. Folding halves a polynomial's even and odd parts, and domain splitting, zero polynomials and selectors of cosets equal their definitions. ",
  ["inputs", "fault_sequences"], "all batches of polynomials, parameters and single-place modifications of proofs",
  "tests run one shape and only the accepting path",
  ["tachyon/crypto/commitments/fri"],
  [("folding and query verification", "tachyon/crypto/commitments/fri/verify.h")])

P("C18", "Polynomial commitments open only to the committed polynomial's values",
  "Commitments are homomorphic and equal the multi-exponentiation of the setup by the coefficients (or values in the evaluation basis), an honest batched opening at any sets of points verifies, and a changed evaluation, commitment or proof element is rejected. "
  "Vector commitments to group elements bind value and randomness the same way, and batched commitments equal the single ones.",
  ["inputs", "fault_sequences"], "all polynomials, opening sets with shared and distinct points, and modifications",
  "tests use one set of polynomials and points",
  ["tachyon/crypto/commitments/kzg", "tachyon/crypto/commitments/pedersen", "tachyon/crypto/commitments/polynomial_openings.h", "tachyon/crypto/commitments/univariate_polynomial_commitment_scheme.h"],
  [("opening aggregation", "tachyon/crypto/commitments/kzg/shplonk.h"), ("grouping by point", "tachyon/crypto/commitments/polynomial_openings.h")])

P("C19", "The sumcheck protocol accepts true sums and rejects false ones",
  "For any polynomial given as a sum of products of multilinear extensions, the honest prover's messages are the partial sums of that polynomial, the verifier accepts the true sum over the hypercube and derives the correct point and value, and any changed sum or message that breaks consistency is rejected. ",
  ["inputs", "fault_sequences"], "all numbers of variables, product structures and modifications of one message",
  "tests use random instances of the accepting path",
  ["tachyon/crypto/sumcheck/multilinear"],
  [("round polynomial computation", "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h"), ("consistency check", "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h")])

P("C20", "Challenges are a deterministic binding function of the whole transcript",
  "Prover-side and verifier-side transcripts and challengers that observe the same messages in the same order, however grouped into calls, produce the same challenges, and the proof bytes written are read back as the same values in the same order; bytes that are not the encoding of a field element or of a point on the curve are refused. "
  "Changing, dropping or swapping any observed message changes every later challenge (only zeros at the very end of the first block of a duplex challenger, which does not pad, may be dropped), and sampled bits, indices and proof-of-work checks stay in range and agree with the sampled values.",
  ["histories", "inputs"], "all sequences of observe, write and sample calls",
  "tests replay one short sequence",
  ["tachyon/crypto/challenger", "tachyon/crypto/transcripts", "tachyon/zk/plonk/halo2/blake2b_transcript.h", "tachyon/zk/plonk/halo2/poseidon_transcript.h", "tachyon/zk/plonk/halo2/sha256_transcript.h"],
  [("input and output buffers", "tachyon/crypto/challenger/duplex_challenger.h")])

P("C21", "Random generators are reproducible streams with exact resumption",
  "A seeded generator produces the stream that its algorithm defines; two generators with the same seed, also one that was used before it was seeded, agree for every mix of 32-bit and 64-bit requests, and saving and restoring the state at any point continues the stream exactly. "
  "Wrongly sized seeds and impossible states are refused and change nothing. Field elements made from a generator's words or drawn at random are reduced, and draws from a range stay within it whichever of its ends it includes.",
  ["histories", "inputs"], "all seeds and request sequences, including those across internal block borders",
  "tests compare the first few words of one seed",
  ["tachyon/crypto/random", "tachyon/c/crypto/random", "tachyon/zk/plonk/halo2/random_field_generator.h", "tachyon/base/random.h"],
  [("block buffering", "tachyon/crypto/random/block_rng.h"), ("state update", "tachyon/crypto/random/xor_shift/xor_shift_rng.h")])

P("C22", "Circuit proofs verify for honest witnesses and not otherwise",
  "For circuits with gates, copy constraints, lookups, shuffles and instance values, a proof generated from a satisfying witness is accepted by the verifier for its instance values, whichever commitment scheme, transcript, lookup argument and circuit layout is chosen. "
  "A proof is not accepted after a byte of it was changed, it was cut short, parts of it were swapped or an instance value was changed; nor is any proof accepted that was made from a witness violating a gate, a copy constraint, a lookup, a shuffle or an instance value. "
  "Proving again with the same randomness gives the same bytes, and prover and verifier derive the same verifying key.",
  ["inputs", "configurations", "fault_sequences"], "all witnesses, circuit parameters, schemes and modifications",
  "tests replay one recorded proof per example circuit",
  ["tachyon/zk/plonk/halo2", "tachyon/zk/plonk/keys", "tachyon/zk/lookup", "tachyon/zk/shuffle", "tachyon/zk/plonk/examples"],
  [("argument creation", "tachyon/zk/plonk/halo2/argument_data.h"), ("verification", "tachyon/zk/plonk/halo2/verifier.h")])

P("C23", "Compiling constraints preserves what they mean",
  "For any constraint expression over fixed, advice, instance, selector and challenge cells at any rotation, every evaluator (row-wise, compiled calculation graph, verifying, AIR) computes the expression's mathematical value, and degree, complexity, equality and cloning agree with it. "
  "Selector compression replaces selectors by fixed columns such that every gate is, on each row where it is enabled, zero exactly if its constraint holds and vanishes on the other rows (expressions with complex selectors keep their value), within the degree bound; every lookup is checked against its own table; and constraint-system metadata (queries, rotations, degrees, blinding) matches the constraints that were added.",
  ["programs", "inputs"], "all expression trees, assignments, selector activations and degree bounds",
  "tests build each node kind once and one small selector set",
  ["tachyon/zk/expressions", "tachyon/zk/plonk/expressions", "tachyon/zk/plonk/vanishing", "tachyon/zk/plonk/constraint_system", "tachyon/zk/air"],
  [("calculation graph with common sub-expressions", "tachyon/zk/plonk/vanishing/graph_evaluator.h"), ("selector combination", "tachyon/zk/plonk/constraint_system/selector_compressor.h")])

P("C24", "Copy constraints and layout place exactly the requested assignments",
  "After any sequence of copy requests two cells lie on the same permutation cycle exactly if they are connected by requests, and the permutation polynomials encode those cycles as a bijection. "
  "Floor planners place every region without overlapping cells of the same column, place each assigned value, selector, constant and lookup table where the region's position says, permuted lookup columns are permutations of their inputs with each run led by its table value, and blinding rows stay outside the usable rows.",
  ["histories", "inputs"], "all sequences of copies and all shapes and orders of regions",
  "tests perform a handful of copies and regions",
  ["tachyon/zk/plonk/permutation", "tachyon/zk/plonk/layout", "tachyon/zk/lookup/halo2/permute_expression_pair.h", "tachyon/zk/base/blinder.h"],
  [("cycle merging", "tachyon/zk/plonk/permutation/cycle_store.h"), ("first-fit allocation", "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.h")])

P("C25", "R1CS instances map to equivalent QAPs and sound-by-test Groth16 proofs",
  "For any rank-1 constraint system, linear combinations are normalised without changing their value, the matrices produced hold exactly the added constraints, and satisfaction reported equals evaluating every constraint. "
  "The quadratic arithmetic program of it is divisible by the vanishing polynomial exactly for satisfying assignments, and a Groth16 proof of a satisfying assignment verifies while a changed public input or proof element is rejected.",
  ["programs", "inputs"], "all systems of linear-combination triples and assignments",
  "one simple circuit is tested",
  ["tachyon/zk/r1cs"],
  [("deduplication of terms", "tachyon/zk/r1cs/constraint_system/linear_combination.h"), ("witness map", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h")])

P("C26", "Binary serialization round-trips and rejects short input",
  "Every serialisable value - numbers in either byte order, enums, strings of narrow and wide characters, arrays, vectors, nested containers, field elements, points, polynomials, matrices, commitment keys, hash states, trees and proofs - occupies exactly the size estimated for it and reads back equal, at any offset and in any sequence, alone or several at a time, and the buffer position advances by that size. A field element is written as its canonical integer unless Montgomery form is selected, and an integer that is not below the modulus is rejected, as is a matrix whose dimensions do not match a fixed-size destination. "
  "Reading from a buffer that is too short, or that announces more elements than follow, reports failure instead of succeeding, reading past the end or crashing; raw reads and writes at any position succeed exactly when they fit without overflow; growing buffers keep earlier content; and a moved buffer keeps its content, position and byte order.",
  ["inputs", "histories"], "all values of all serialisable types, all truncation points",
  "tests write one value of each type",
  ["tachyon/base/buffer", "tachyon/math", "tachyon/crypto"],
  [("copyable traits", "tachyon/base/buffer/copyable.h"), ("bounds checks", "tachyon/base/buffer/buffer.h")])

P("C27", "Text and JSON conversions round-trip and reject malformed input",
  "Number-to-text conversions produce the decimal or hexadecimal notation; text-to-number conversions return the value of every canonical numeral in range, and refuse numerals out of range, blanks, signs where none may be and anything after the number; string helpers (prefix, suffix, case, 0x handling, leading zeros, hexadecimal bytes, printing of containers and Rust debug notation) do what their documentation says. "
  "JSON serialisation of booleans, integers, floats, strings (with any character, NUL included), arrays, optional values, enumerations, field elements, points and polynomials round-trips (doubles to within the last place), and text that is not JSON, values of another kind, missing members, numbers out of range and field elements that are not reduced yield an error instead of a value. "
  "Command lines parse to the values they spell: long, short and grouped flags, values after = or in the next argument, positional arguments, environment defaults, subcommands, unknown arguments kept for the caller, arguments forwarded after --, and required flags, choices and ranges enforced with an error that says so.",
  ["inputs"], "all numbers and byte strings, including overflows by one, signs, blanks and embedded NULs",
  "tests list fixed strings",
  ["tachyon/base/strings", "tachyon/base/json", "tachyon/base/flag"],
  [("digit loops with overflow checks", "tachyon/base/strings/string_number_conversions_internal.h")])

P("C28", "Containers, ranges and parallel helpers behave like their sequential models",
  "Any history of operations on the circular double-ended queue (pushes, pops, insertions of one, many or a range of elements anywhere, erasures, resizes, swaps, copies, moves) and on the stack gives the same observable content as a standard double-ended queue, and every element it held is constructed and destroyed exactly once; chunked, zipped, reversed and adapted views enumerate exactly the elements their definition says; number ranges report size, emptiness, membership and intersection by their bounds; find, map, flat-map, create, binary-search, erase, contains and ranges:: algorithms (with projections) equal their standard counterparts. "
  "Parallel for, map, fill, resize and chunk helpers visit every element exactly once with the right index, chunk count and chunk size for any number of threads, sorting returns a sorted permutation, optional-ownership handles keep the value they were given, and alignment and bit utilities equal their arithmetic definition.",
  ["histories", "inputs"], "all operation sequences, sizes, chunk sizes and thread counts",
  "tests run scripted sequences; wrap-around plus growth plus middle insertion needs a specific history",
  ["tachyon/base/containers", "tachyon/base/range.h", "tachyon/base/parallelize.h", "tachyon/base/sort.h", "tachyon/base/bits.h"],
  [("ring buffer index arithmetic", "tachyon/base/containers/circular_deque.h"), ("chunking", "tachyon/base/parallelize.h")])

P("C29", "Results do not depend on the number of threads",
  "With multithreading enabled every parallel computation returns, for every input size, the same result with any number of threads as with one: powers, batch inversion and other batch operations on field elements; transforms and their inverses over every kind of domain, low-degree extensions of batches and of cosets; arithmetic and evaluation of univariate and multilinear polynomials; operations on matrices; multi-scalar multiplication, fixed-base multiplication and normalisation of batches of points; Merkle trees over digests and over matrices of field elements; quadratic arithmetic programs and R1CS proofs; and, when the randomness is the same, the commitments and proofs of the FRI, sumcheck and PLONK provers. "
  "Searches for a proof of work may find any solution.",
  ["configurations", "schedules", "inputs"], "all thread counts from 1 to twice the cores and input sizes around the parallelisation thresholds",
  "tests run without threads or with one thread count",
  ["tachyon/base/parallelize.h", "tachyon/base/openmp_util.h", "tachyon/math/base/groups.h", "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h", "tachyon/crypto/commitments/merkle_tree"],
  [("disjoint chunks", "tachyon/base/parallelize.h")])

P("C30", "The C and C++ bindings compute the same as the library",
  "Every function of the C interface and of its C++ wrappers - fields (the 31-bit and the 254/381-bit ones, and quartic extensions), points in all representations of both groups, multi-scalar multiplication, polynomials, evaluations, rational evaluations, evaluation domains, matrices and generators of randomness - gives the same result as the corresponding library operation for all inputs, and conversions between the two worlds keep the value. "
  "The same holds for histories of the SP1-style hashing and commitment interface: its challenger observes, samples and clones like the native one, its containers of opening points, opened values and commitments hold what was put in, and openings committed through it are opened and verified as natively.",
  ["inputs", "histories"], "all elements, points in all representations, polynomials, domains and challenger histories",
  "tests call each function with one random value",
  ["tachyon/c/math", "tachyon/cc/math", "tachyon/c/crypto", "tachyon/c/zk"],
  [("generated wrappers", "tachyon/c/math/elliptic_curves/generator"), ("bit casts between types", "tachyon/c/base")])

P("C31", "Checked numerics and time arithmetic saturate or fail exactly at the limits",
  "Casts between every pair of the 8 to 64 bit integer types and from floating point numbers report exactly whether the value fits, and saturate at the limits otherwise (NaN becoming 0). Checked addition, subtraction, multiplication, division, remainder, shifts, bit operations, negation, absolute value, minimum, maximum and comparison of operands of different types give the exact mathematical result when it fits and are invalid when it does not, and invalidity is never lost; the clamped operations give the exact result clamped to the result type. Rounding casts equal floor, ceiling and nearest. "
  "Time points and durations add, subtract, negate, scale, divide, take remainders and round to multiples exactly, saturating at the infinities; conversions between units truncate or round as their names say; conversions to and from seconds since the epoch, time specifications, the standard and Abseil clocks keep the value; and durations given on the command line are read as the value and unit they name or refused.",
  ["inputs"], "all type combinations and operands at the borders of both types",
  "tests enumerate selected borders",
  ["tachyon/base/numerics", "tachyon/base/time"],
  [("overflow predicates", "tachyon/base/numerics/checked_math_impl.h"), ("saturating duration arithmetic", "tachyon/base/time/time.h")])

P("C32", "Path algebra and file helpers keep names and contents intact",
  "For every string, the components of a path are what lies between separators with the root first; joining concatenates components and refuses absolute ones; directory and base name, parenthood and relative paths, trailing separators, references to the parent directory, and extensions (taken, removed and inserted before, double ones included) agree with the components and lose no character. "
  "For every history of opening, reading, writing, seeking, truncating, duplicating and appending, a file holds exactly the bytes written and gives them back at any offset and length, whether through file objects, streams, whole-file helpers, size limits, copies, comparisons or memory mappings of any region; loading a binary file shows that file, mapped or read. "
  "For every history of creating, writing, linking, moving, replacing, copying and deleting, the directory tree holds exactly what these operations say and nothing outside them changes (links are not followed when deleting); enumeration lists each entry that matches its pattern and kind once; temporary files and directories appear where asked and go away with their owner; and failures are reported. ",
  ["inputs", "histories"], "all path strings with separators, dots and empty components; all write and read sequences in a scratch directory",
  "tests list fixed paths",
  ["tachyon/base/files"],
  [("component parsing", "tachyon/base/files/file_path.cc")])

P("C33", "Circom artefacts are parsed to the values they encode or refused",
  "Constraint-system (.r1cs), witness (.wtns) and Groth16 proving-key (.zkey) files written according to their formats are read back as exactly the values they encode - header fields, counts, constraints, wire-to-label map, witnesses, verifying key, queries and coefficients, including the native proving key made of them - for every order of the sections, with unknown sections in between, whether mapped or read, and the file stays as it was. "
  "A file that is missing, is cut short in a section that is needed, has another magic, version, prover type or a field size that is no multiple of 8, lacks a section, or states a count that the file has no room for (or more public inputs than variables) is refused with a null result, without a crash or a huge allocation; arbitrary damage never crashes the parsers and never leaves counts and contents disagreeing. "
  "Proof and public-signal JSON of any proof keeps every coordinate in decimal. "
  "The quotient evaluations computed from a key's coefficients and a witness are A*B-C on the coset of the domain by a root of unity of twice its order.",
  ["inputs", "fault_sequences"], "all well-formed files and their truncations and header modifications",
  "tests read a few recorded files",
  ["vendors/circom/circomlib"],
  [("section table", "vendors/circom/circomlib/base/sections.h"),
   ("proving-key reader", "vendors/circom/circomlib/zkey/zkey.h"),
   ("quotient", "vendors/circom/circomlib/circuit/quadratic_arithmetic_program.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for p in OUT:
        f.write(json.dumps(p) + "\n")

"""Which harness decides which property, and how it is built."""

VARIANTS = {
    # as the official build: no OpenMP, no vector instructions
    "base": {},
    # OpenMP, AVX-512 or AVX2
    "omp": {"variant": "omp", "run_env": {"OMP_NUM_THREADS": "4"}, "shards": 4},
    "avx2": {"variant": "", "env": {"VERIF_OPT": "-O2 -DNDEBUG -mavx2"}},
    "avx512": {"variant": "avx512", "cpu": ["avx512f", "avx512dq"],
               "env": {"VERIF_OPT": "-O2 -DNDEBUG -mavx512f -mavx512dq -mavx2 -mfma "
                                    "-DTACHYON_HAS_AVX512=1"}},
}

CHECKS = {}


def C(id, target, rule, variants=("base",), assumptions=(), note="", scale=1,
      thorough_scale=1):
    """scale: multiplies the number of cases each sub-property asks for"""
    targets = [target] if isinstance(target, str) else target
    CHECKS[id] = {"runs": [(v, t) for v in variants for t in targets],
                  "rule": rule, "assumptions": list(assumptions), "note": note,
                  "scale": {"quick": scale, "thorough": thorough_scale}}


C("C01", "bigint",
  "a case draws a width, two operands biased to zero, all-ones, powers of two "
  "and carry patterns, and checks one group of operations against GMP; "
  "non-trivial: the operands are not both below 2^16",
  note="oracle: GMP integers", scale=5)
C("C02", "primefield",
  "a case draws a field, elements biased to zero, one, the middle and the end "
  "of the range and powers of two, and checks one group of operations against "
  "GMP integers modulo the prime; non-trivial: operands other than 0 and 1",
  note="oracle: GMP modular integers (mpz_powm, mpz_invert, mpz_legendre)",
  scale=12)
C("C03", "extfield",
  "a case draws a field and elements (random, with zero coordinates, in a "
  "subfield, with small coordinates) and checks one group of operations "
  "against schoolbook arithmetic in the tower over GMP; non-trivial: at least "
  "two non-zero coordinates",
  note="oracle: schoolbook tower arithmetic over GMP with its own constants, "
       "Frobenius by exponentiation, norm as a determinant", scale=3, thorough_scale=2)
C("C04", "binaryfield",
  "a case draws a field of the tower and elements (single bits, complements, "
  "subfield members, half-empty, arbitrary) and compares every operation with "
  "the recursive definition; all pairs are enumerated up to 8 bits; "
  "non-trivial: both operands other than 0 and 1",
  note="oracle: bitwise recursive Fan-Paar multiplication", scale=8, thorough_scale=2)
C("C05", "packed",
  "a case draws a packed type and per-lane operands, independently biased to "
  "the borders of the canonical and of the Montgomery representation and to "
  "pairs that cancel, and compares every lane with the scalar field; "
  "non-trivial: lanes differ in both operands",
  variants=("base", "avx512"),
  note="oracle: the scalar field, itself compared with GMP by C02 and C03",
  scale=12)
C("C06", "algebra",
  "a case draws a type (four fields, two extensions, fractions, curve points), "
  "elements, lengths and exponents of up to 320 bits and compares a generic "
  "algorithm with its textbook definition; non-trivial: the element is not zero "
  "or one, or the vector has at least two entries",
  note="oracle: textbook definitions on top of + and * (C02, C03 and C10 "
       "compare those with GMP), GMP gcd", scale=4)
C("C07", "fft",
  "a case draws a domain (radix-2 or mixed radix, size, coset offset) and a "
  "polynomial, values, a point or a matrix, and compares one operation with "
  "Horner evaluation at every element; histories reuse and drop domains of the "
  "same sizes; non-trivial: domain of more than two elements and a non-constant "
  "polynomial",
  variants=("base", "avx512"),
  note="oracle: Horner evaluation and schoolbook transforms over the scalar field",
  scale=8)
C("C08", "unipoly",
  "a case draws a field (GF(7), BabyBear and its quartic extension, BN254 "
  "scalars), coefficient lists (sparse, small, related to each other so that "
  "leading terms cancel or one divides the other) and compares one operation in "
  "one mix of dense and sparse operands with schoolbook arithmetic; "
  "non-trivial: both operands of degree at least one",
  note="oracle: schoolbook arithmetic on coefficient lists", scale=160)

C("C09", "multipoly",
  "a case draws a field, a multilinear extension of up to 7 variables or sparse "
  "multivariate polynomials of up to 6 variables (sharing and cancelling "
  "monomials), points, and compares evaluation, variable fixing, arithmetic, "
  "term order and merging, or a history of operations with the definition on "
  "maps of monomials; non-trivial: at least two variables (multilinear) or two "
  "terms in both operands",
  note="oracle: the definition on maps of monomials and on the hypercube", scale=100)

C("C10", "curve",
  "a case draws a curve (secp256k1, Pasta, BN254 and BLS12-381 G1 and G2, tiny "
  "curves over GF(7) with and without points of order two, a curve with a != 0 "
  "over the BN254 base field), points (identity, multiples of the generator, "
  "points outside the subgroup, equal, opposite, doubled and endomorphic "
  "partners) with random denominators, and compares operations with the affine "
  "chord-and-tangent law; non-trivial: no operand is the identity",
  note="oracle: affine chord-and-tangent law over the base field, GMP Legendre "
       "symbol", scale=10)

C("C11", "msm",
  "a case draws a curve and coordinate system, 0 to 1500 terms over a table of "
  "known multiples of the generator (identity, opposite and repeated bases) and "
  "scalars (random, all maximal, repeated and negated, sparse, small, window "
  "borders and carry chains), runs every strategy, digit form and a split of the "
  "list, or fixed-base multiplication with any declared size, or a decomposition "
  "of a scalar (halves of unlike lengths); non-trivial: two terms at least",
  variants=("base", "omp"),
  note="oracle: one scalar multiple of the generator by the inner product of "
       "scalars and logarithms in GMP", scale=8)

C("C12", "pairing",
  "a case draws a curve (BN254, BLS12-381), scalars (zero, small, negative, "
  "random) or a list of up to 14 pairs with repeated and opposite points, and "
  "compares the pairing with the power of the generators' pairing, with the "
  "optimal ate pairing computed by affine lines over Fp12 and a plain final "
  "exponentiation, or the final exponentiation of any element with its exponent; "
  "non-trivial: no argument is the identity (or two pairs at least)",
  note="oracle: powers by GMP exponents, affine Miller loop over Fp12", scale=8)
C("C13", "circle",
  "a case draws points (rational parametrisation, small 2-power order, axis "
  "points, multiples of the generator), pairs of equal, opposite and conjugate "
  "points and scalars up to the group order and compares with complex "
  "multiplication in the harness's own arithmetic; non-trivial: the points lie "
  "on no axis",
  note="oracle: complex multiplication over the harness's own F_p and F_p^4",
  scale=150)

C("C14", "matrix",
  "a case draws a field, dimensions (wide, tall, up to 70) and entries and "
  "compares products, bit reversal of rows, packing, circulant matrices, "
  "determinants and serialisation with lists of rows, or a sparse matrix with "
  "empty rows and unordered columns against a list of maps; non-trivial: more "
  "than one row and column (two entries and rows)",
  variants=("base", "avx512"),
  note="oracle: the entry-by-entry definition on lists of rows", scale=100)
C("C15", "sponge",
  "a case draws a permutation (11 Poseidon and 26 Poseidon2 instances, scalar and "
  "packed) and a state, or a history of absorbing and squeezing calls of any "
  "length in any split, or an input of a hasher or compressor, and compares with "
  "the rounds and matrices written out; non-trivial: the state is not zero but "
  "for an element, the history has two calls, the input two blocks",
  variants=("base", "avx512"),
  note="oracle: rounds of constants of an independent Grain generator, S-boxes and "
       "dense matrices, and a sponge that works element by element", scale=60)
C("C16", "merkle",
  "a case draws 1 to 4096 leaves and a subtree size, or up to ten matrices of "
  "any heights and widths, commits to them, opens indices and changes one thing "
  "of the root, the index, a value, the proof or the dimensions; non-trivial: "
  "four leaves, or two matrices of more than one row",
  variants=("base", "avx512", "omp"), scale=4,
  note="oracle: the recursive definition of the root and the path written out, "
       "over Poseidon2 and over cheap algebraic stand-ins; a change counts as one "
       "when the path written out says so")
C("C17", "fri",
  "a case commits to up to fifteen matrices of any heights over up to three "
  "rounds (or to one polynomial, or to a random word of high degree), opens them "
  "at challenge points and others, verifies, and changes one thing of the claimed "
  "values, commitments, points, query answers, paths, folded values, final value "
  "or proof of work; or folds a random codeword; or builds a coset and its "
  "selectors; non-trivial: more than one matrix or eight rows",
  variants=("base", "omp"),
  note="oracle: opened values by Lagrange interpolation, folding by even and odd "
       "coefficients, selectors by their definition, acceptance of the honest "
       "proof and rejection of each single change", scale=2)
C("C18", "pcs",
  "a case draws a secret, up to eight polynomials of degrees below 32, and an "
  "opening set with shared and distinct points, commits one by one and in "
  "batches, opens, verifies and changes one value, point, commitment or proof "
  "element; or draws Pedersen generators with known logarithms, values and "
  "randomness; non-trivial: more than one opening or value",
  note="oracle: the secret is known, so every commitment is compared with its "
       "scalar times the generator; acceptance of honest proofs and rejection of "
       "each single change", scale=4)

C("C19", "sumcheck",
  "a case draws a field (BN254 Fr, Goldilocks, BabyBear), up to 10 variables, up "
  "to six tables (zero, constant, with trailing zeros left out), up to five terms "
  "of up to six factors with repetitions, and challenges (small numbers and "
  "others), and compares every message with the partial sums of the definition "
  "and the verifier's answer with the one that follows from the messages it "
  "received (honest, changed sum, changed message, lies moved to the end); "
  "non-trivial: at least two variables and a product, or at least three nodes",
  variants=("base", "omp"),
  note="oracle: partial sums by definition; Lagrange interpolation by definition")

C("C20", "transcript",
  "a case is a history of up to 30 observations (one, several, two-dimensional), "
  "samples (elements, arrays, extension elements, bits), proofs of work and "
  "continued copies of a challenger, or of up to 21 points and scalars written to "
  "a Halo2 transcript and its proof, challenges and moves of the state to another "
  "writer, followed by a verifier reading the proof whole, cut or changed, or a "
  "pair of histories that differ in one message; non-trivial: messages and "
  "challenges are mixed, or the pair has more than three steps",
  variants=("base", "omp"),
  note="oracle: models that keep the absorbed elements or bytes and call the "
       "permutation or a stand-in of BoringSSL's hash functions on them; prover "
       "against verifier; pairs of histories")
C("C21", "rng",
  "a case is a history of up to 21 requests for words, saved and restored states "
  "(also close to the overflow of the block counter, into generators already in "
  "use, at any offset of a buffer of any byte order), new seeds, seeds and states "
  "that must be refused, and continued copies of a generator, through the C++ and "
  "the C API; 512 bits to be reduced to a field element; a random field element; "
  "or a draw from a range of any kind; non-trivial: at least four words and one "
  "restored state; others always", scale=20)
C("C22", "plonk",
  "a case is a random circuit (up to three gates of degree up to four with any "
  "rotations, challenges and shared selectors, copies among advice, fixed, instance "
  "and constant cells, up to two lookups into fixed or witnessed tables, a shuffle), "
  "one or two witnesses, one of four transcripts, two floor planners, two commitment "
  "schemes and two lookup arguments; the proof of it, and one changed proof, instance "
  "or witness; non-trivial: at least four cells and one argument besides copies")
C("C23", "expr",
  "a case is one or more random expression trees over advice, fixed, instance, selector "
  "and challenge cells with near, far and negative rotations and much repetition (so that "
  "common parts are shared), evaluated at every row of a random table by each evaluator; "
  "or a random constraint system (gates, lookups, shuffles, selectors, equality) whose "
  "metadata, compressed selectors and lookups per table are compared with a model; or AIR "
  "constraints; non-trivial: at least four nodes, or several arguments and selectors",
  scale=15)

C("C24", "layout",
  "a case is a history of copy requests on a grid of cells (compared with a union-find, and "
  "read back from the permutation polynomials), of assignments to keys and witnesses "
  "(compared with plain tables), a random script of regions, constants, instance cells, "
  "equalities and tables run by a floor planner (recorded and compared with what the script "
  "asked for), a lookup input and table to permute, or a column to blind; non-trivial: at "
  "least three merged cycles, four operations, three regions with four cells, or several "
  "different values",
  scale=10)
C("C25", "r1cs",
  "a case is a history of operations on a linear combination (compared with a map), or a "
  "random program of instance and witness variables, named sums (nested, cancelling, with "
  "repeated terms) and constraints, satisfied or not, whose matrices, arithmetic program and "
  "Groth16 proofs are compared with the program's own values; non-trivial: at least four "
  "operations, or two constraints (for systems with a named sum; for proofs one constraint and "
  "a public input)", scale=6)
C("C26", "serial",
  "a case is a sequence of values of any of some 130 serialisable types written to and read from a "
  "buffer (fixed of just the size, or growing; in order or anywhere; either byte order) and "
  "compared, the bytes of one cut off anywhere before the end of mapped memory, a length made "
  "larger than what follows, or a history of raw reads, writes, moves and changes of position "
  "compared with a vector of bytes; non-trivial: two values and a byte, a byte cut off, a larger "
  "length, or five operations",
  scale=10)
C("C27", "text",
  "a case is a value written as a numeral (or a numeral altered, out of range, or not one) and "
  "read back, a string put through the helpers and compared with a model, a JSON document with "
  "a member missing, of the wrong kind or out of range, or a parser with random flags and a "
  "command line generated for it together with the values it must set or the error it must "
  "give; non-trivial: at least two digits, characters, members or arguments",
  scale=20)
C("C28", "containers",
  "a case is a history of operations on two circular deques (of numbers, strings, or elements that "
  "record where they live) or a stack compared with std::deque after every operation, a container "
  "and the views, helpers, algorithms or erasures applied to it compared with the standard ones or "
  "a direct definition, a range of numbers of some type, or work of some size split in chunks or "
  "over threads and recorded; non-trivial: at least four operations, or two elements",
  scale=12)
CHECKS["C28"]["runs"] += [("base", "parallel"), ("omp", "parallel")]
C("C30", "capi",
  "a case is a pair of field elements or points (multiples of the generator in every "
  "representation) put through the C functions and the C++ wrappers, several sums over one MSM "
  "context, polynomials through a domain, a history of generators or challengers, or a whole "
  "exchange of a FRI prover and verifier over the C interface with one change; non-trivial: "
  "distinct operands that are not zero, two terms, a domain of two elements, five steps",
  scale=20)
C("C31", "numerics", "an arithmetic case is non-trivial when its operands are non-zero (for a float: finite and non-zero)", note="exact 128-bit integers are the oracle for every pair of the eight integer types; a fraction strictly between a limit and the next integer is not judged", scale=6000, thorough_scale=10)
C("C29", "threads", "a case is non-trivial when the input has more than eight elements (four leaves, two constraints)", variants=("omp",), note="every computation is run with one thread and with one or two of 2 to 16 threads; results are compared with ==, and with a sequential reference where one is cheap; proof-of-work solutions are not compared", scale=10)
C("C32", "files", "a path case is non-trivial when it has two components, a dot or a doubled dot as the sub-property needs; a history when it has more than four steps", note="files are accessed as an unprivileged user inside a directory the check makes and removes; contents and trees are read back with the system's own calls after every step", scale=120)
C("C33", "circom",
  "a constraint system with constraints and more than two wires, a witness or key of several values, a damaged file, a proof, or a quotient over a domain of more than one element",
  note="Circom files against the description of their formats, damaged files, JSON and the quotient", scale=100, thorough_scale=10)

"""The registered checks: property -> harnesses, bounds, assumptions."""
X = "explicit-state bounded model checking of the real code: exhaustive enumeration of all configurations / operation sequences within the bounds, each compared with an independent reference model"
CHECKS = {}


def check(pid, harnesses, rule, bounds, assumptions=(), technique=X, level="model_checking",
          note="", limit=200, limit_thorough=7200, only=None):
    CHECKS[pid] = dict(harnesses=harnesses, rule=rule, bounds=bounds,
                       assumptions=list(assumptions), technique=technique, level=level,
                       note=note, limit=limit, limit_thorough=limit_thorough, only=only or {})


check("C01", ["c01_bigint"],
      "a state is a distinct operand configuration (limb pattern vector, width, operation parameter); a transition is one call of a BigInt operation compared with GMP; a trace is a sequence of in-place operations replayed against a GMP accumulator",
      "limb alphabet {0,1,2,2^31,2^32-1,2^32,2^63,2^64-2,2^64-1} (smaller for wide types), widths 1..9 limbs, all operand pairs; all shift amounts; all operation sequences to depth 3",
      ["GMP computes correctly", "x86-64 little-endian build; the BIG_ENDIAN branches are not built here"])
check("C04", ["c04_small", "c04_large", "c04_curves"],
      "a state is a distinct (field, operand tuple) or register state; a transition is one field operation compared with GMP / machine integers on the raw representation; a trace is a register program step path or an operand row",
      "all pairs of elements of 19 generated fields with p <= 257 (Montgomery and plain 31-bit paths) and all reachable two-register states for p <= 100; every one of the 2^31 elements of BabyBear, KoalaBear and Mersenne31 with 3 (thorough: 11) right operands; for 15 generated primes of 33..576 bits (with/without spare bit, all-ones) and all shipped curve fields, all pairs over complete limb alphabets",
      ["GMP computes correctly", "no assembly / AVX512 field implementations are built in this sandbox"])
check("C06", ["c06_small2", "c06_small46", "c06_12", "c06_shipped"],
      "a state is a distinct element (unary) or ordered pair of elements (binary) of an extension field, or a distinct member of the cyclotomic subgroup; a transition is one field operation compared with schoolbook polynomial arithmetic modulo the declared polynomials; a trace is an operand row",
      "42 generated towers (degree 2, 3, 4, 4=2*2, 6=3*2, 6=2*3, 12=2*3*2 over primes 7..2^31, Montgomery and plain): every element of the fields with at most 1.2e5 elements, every pair of the fields with at most 2197 elements, otherwise every tuple over a coefficient alphabet; bn254, BLS12-381, Goldilocks2, BabyBear4, KoalaBear4 over boundary-coefficient elements; Frobenius exponents 0..2n",
      ["the Frobenius oracle is repeated schoolbook exponentiation, GMP computes correctly"])
check("C08", ["c08_fields", "c08_curves"],
      "a state is a distinct (field, element) or (field, subgroup size n); a transition is one SquareRoot / Legendre / Decompose / GetRootOfUnity call compared with GMP (Euler criterion, exact multiplicative order); a trace is one 2-adic layer of the multiplicative group",
      "every element of 17 fields with p <= 65537; for the other 33 fields every element of the 2-power layers g^(t*j) (j < 64, thorough 512) times 3 cosets, every limb-alphabet element and its square, and 20000 (thorough 400000) consecutive values; every n <= 3000 (thorough 20000), every 2^a*q^b of 64 bits and its neighbour",
      ["GMP's Legendre symbol and modular exponentiation are correct"])
check("C09", ["c09_bulk", "c09_bulk_omp"],
      "a state is a distinct (operation, operand vector, team size); a transition is one bulk call compared with the element-wise definition; a trace is one vector run through all entry points",
      "all vectors up to length 4..6 over pools of 3..7 elements with all coefficients; every length to 40..66 with a zero at no / each single / every second position; every exponent to 5000; all pairs of rational numbers over a 17-element field; without OpenMP and with teams of 1,2,3,4,5,7,8,16 threads",
      ["scalar field operations are exact (C04, C06)", "ordering of rational numbers is excluded (not a field notion; see DESIGN.md)", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc instead of libgomp"])
check("C07", ["c07_binary"],
      "a state is a distinct (field, element) or (field, ordered pair); a transition is one field operation or conversion compared with the recursive tower definition over 128-bit integers; a trace is one element against all partners",
      "1, 2, 4 and 8 bits: every element and every ordered pair; 16 bits: every element with 80 partners; 32, 64, 128 bits: all single bits, all pairs of bits, all runs, repeated and scrambled bytes (unary), all pairs over a thinner set of the same kind (400..1500 patterns; all of them with the thorough tier up to 64 bits); embeddings of every smaller field",
      ["pairs of elements of the fields from 16 bits up are covered on the stated pattern sets only"])
check("C05", ["c05_packed"],
      "a state is a distinct assignment of values to all lanes of two packed operands; a transition is one packed operation whose every lane is compared, as stored, with the scalar operation; a trace is one operand pair through all operations",
      "three packed 31-bit fields in their AVX2 and AVX-512 versions: all pairs of ~29 boundary values of the stored representation in every lane, with quiet, saturated and mixed neighbours; every 17th stored value (all 2^31 with the thorough tier) through add, sub, negate, mul, square, cube, 5th and 7th power; quartic extensions over packed fields with all pairs of boundary values",
      ["the scalar fields are exact (C04, C06)", "AVX-512 versions are explored only when the processor has AVX-512F; NEON versions are not built on x86-64", "the inverse of a lane holding zero is taken to be zero, as BatchInverse defines it"])
check("C10", ["c10_group", "c10_group_omp"],
      "a state is a distinct (curve, representative of a point), (curve, ordered pair of points), (point, scalar) or list of points with a team size; a transition is one group operation, conversion or batch conversion whose result is read back and compared with the affine chord-and-tangent law; a trace is one pair of points through all coordinate systems or one list through the batch routines",
      "every non-singular curve with b != 0 over GF(7) and GF(13) (all points; all scale factors on GF(7) and on a = 0), every third curve over GF(17) (all with the thorough tier), all a = 0 curves over GF(31), 8 curves over GF(49): all ordered pairs of points in all coordinate systems incl. mixed addition, all scalars to 2n+2, all lists of length <= 3 and single-identity lists to length 12, teams of 1,2,3,4,8,13 threads",
      ["field arithmetic is exact (C04, C06)", "curves with b = 0 are outside the code's domain: it represents the identity by the affine pair (0,0)", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc"])
check("C11", ["c11_points", "c11_curves"],
      "a state is a distinct (curve, coordinate tuple), (curve, x, parity) or (curve, representative of a point) or pair of circle points; a transition is one decompression, on-curve test, endomorphism or circle operation compared with exhaustive search over the field, the affine law or integer arithmetic; a trace is one curve or one multiple of a generator",
      "every non-singular curve with b != 0 over GF(7), GF(13), GF(17), GF(31), GF(41) and all a = 0 curves over GF(97), GF(103): every x with both parities in all four coordinate systems, every affine pair, every projective/Jacobian triple (p <= 31), every XYZZ quadruple (GF(7), part of GF(13)), every endomorphism of every a = 0 curve at every representative; bn254 and BLS12-381 G1/G2, pallas, vesta, secp256k1: ~150 multiples of the generator (all +-2^i with the thorough tier), 800 (thorough 8000) x coordinates; circles over 6 primes: all pairs of points and all scalars to 2p+3; the M31 circle on an 18x18 grid of scalars",
      ["field arithmetic and square roots are exact (C04, C06, C08)", "the identity is not a finite curve point: IsOnCurve is false for it by design"])
check("C28", ["c28_shplonk", "c28_gwc"],
      "a state is a circuit, a witness and instances (or an altered proof); a transition is one proof made or judged by the real halo2 prover and verifier over BN254; a trace is one proof carried from the circuit to the verifier's decision",
      "16-row domains; 9 gate kinds (products, rotations, fixed and instance columns, several polynomials, degrees to 5) with all values 0..2 of 3 cells; all sets of one or two copy constraints over 4 cells, instances and constants with all 0/1 values; 3 tables, one and two lookups, selectors, all witnesses of 2..3 rows; all 3-row lookups into advice columns; all 3-row shuffles and 2-row shuffles of pairs; challenge phases; batches of 2 and 3 circuits; both floor planners; proofs of five circuits with every element cut, removed, zeroed, repeated, swapped and bit-flipped (thorough: every bit), instances and keys changed; SHPlonk with halo2 lookups and GWC with log-derivative lookups",
      ["a fixed blinding seed, a fixed SRS and 16 rows: soundness is decided for the honest prover run on every witness and for altered proofs, not against an arbitrary prover", "a verifier that stops on a malformed proof counts as rejecting it", "the sign bit of an encoded point at infinity is ignored, as halo2 does", "the PSE vendor variant does not compile in this tree and is not covered"])
check("C29", ["c29_deque", "c29_misc"],
      "a state is a distinct (physical layout, operation sequence) of a container or a distinct operation sequence of a wrapper; a transition is one operation applied to both the real object and the reference structure, followed by a full comparison; a trace is one operation sequence",
      "circular_deque<int / tracked object / unique_ptr / copy-only>: every (capacity 3..7, start offset, size) layout followed by every sequence of 2 operations (3 at capacity 3) out of ~26 kinds with all positions and counts, live-object accounting and iterator algebra; every push/pop word of length 9; stack: all words of length 16; views and container helpers: every vector over 3 values up to length 6..7; MaybeOwned: all sequences of 4 operations over two handles; callbacks: all sequences of 4 over two once and two repeating slots; ScopedGeneric (with and without tracking): all of length 5; ranges: all int8 (every third) and boundary values of six integer types in the four open/closed kinds; thorough: one step deeper each",
      ["arguments aliasing elements of the same container are excluded"])
check("C30", ["c30_numerics"],
      "a state is a distinct (type pair, value pair), (type, value) or value of a conversion; a transition is one checked, clamped or converting operation whose validity and value are compared with exact 128-bit (integers) or extended-precision (floating point) arithmetic; a trace is one type pair",
      "all 64 pairs of integer types of 8..64 bits with every pair of values (8 bit: all values; wider: ~90..400 boundary values around powers of two), 12 binary operations in operator, mixed, compound-assignment and function form; every 8/16-bit and boundary 32/64-bit value through the unary operations and all conversions; float and double values around every power of two to 2^130, infinities, NaN, subnormals; bit helpers: all 8/16-bit and boundary 32/64-bit values",
      ["shifts of negative values and by at least the bit width are reported invalid by documented design", "checked and clamped bitwise operations work on the unsigned promoted type by documented design"])
check("C31", ["c31_strings"],
      "a state is a distinct text, number, byte string or nested container; a transition is one conversion or helper call compared with a naive parser, printer or string definition; a trace is one family of texts",
      "integers: every text of length <= 5 (thorough 6) over 13 characters incl. NUL and white space, every byte inserted at every position of 7 numerals, every limit of the integer types +-40 and every power of 2 and 10 with 16 decorations, through 9 parsers; round trips: every 65521st 32-bit value plus 160000 around the limits, all two-bit 64-bit patterns +-2; floating point: every text of length <= 6 (7) over 8 characters, 6 mantissas at every binary exponent; hex bytes: every text of length <= 5 over 15 characters, every byte at every position; case/prefix/suffix helpers: all pairs of words of length <= 3 over 10 characters; printers: all nested lists to depth 4",
      ["strtod and strtof are correct", "surrounding ASCII white space and a leading plus sign are accepted by design (absl::SimpleAtoi)", "floating-point numbers print with six significant digits by design"])
check("C34", ["c34_time"],
      "a state is a distinct duration, pair of durations, (duration, factor), text or word of clock operations; a transition is one arithmetic operation, conversion or parse compared with exact 128-bit microseconds; a trace is one left operand, conversion family or word",
      "durations: ~210 boundary values (unit boundaries +-2, int and double precision limits, both infinities; ~700 with the thorough tier and for unary operations), all pairs; factors of 6 integer types and double; conversions to and from timespec, timeval, time_t, chrono with 12 periods, absl and double; every flag text of length <= 5 (thorough 6) over 12 characters; all words of 6 operations of TimeInterval and TimeStamp bracketed by clock readings",
      ["adding to or subtracting from an infinite duration changes it (documented TODO crbug.com/869387)", "the monotonic clock does not run backwards", "durations of a period that does not divide a microsecond are compared below 2^50 only (documented conversion through double)"])
check("C14", ["c14_poly", "c14_poly_omp", "c14_poly_asan"],
      "a state is a distinct (field, polynomial), (field, ordered pair of polynomials), list of roots or interpolation problem, with a team size; a transition is one polynomial operation compared coefficient by coefficient with schoolbook arithmetic on integer vectors; a trace is one operand pair through every operation in every dense / sparse combination",
      "all pairs of polynomials with at most 4 (5x3) coefficients over GF(3), 3 over GF(5), 3x2 over GF(7), 2 over a non-Montgomery GF(7); every length to 40 over GF(12289) and to 24 over GF(3) with gaps of 0, 1, 3, 7 and 64 zero coefficients and degree drops; all points of the small fields; all root lists and interpolation problems up to 3 points over GF(3), GF(5), lengths to 40; evaluation vectors up to 3; without OpenMP, with teams of 1,2,3,4,5,8 threads, and under AddressSanitizer",
      ["scalar field operations are exact (C04)", "interpolation is given distinct points", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc instead of libgomp"])
check("C15", ["c15_domain", "c15_domain_omp"],
      "a state is a distinct (field, domain size, offset, team size), matrix shape or history of cache-using operations; a transition is one transform, Lagrange, vanishing or filter evaluation compared with direct evaluation at offset * generator^i; a trace is one polynomial or point through one domain",
      "every radix-2 domain over GF(17) with every offset and every point of the field, GF(5), GF(97) (12 offsets), GF(193), GF(257), GF(12289), BLS12-381 Fr and Goldilocks to 32..512 points; every mixed-radix domain of 2^a*3^b, 2^a*7^b, 2^a*5^b, 2^a*3^b up to 144, 56, 200, 96 points; every polynomial and evaluation length up to 16..64 points, every monomial; all sub-ranges of Lagrange coefficients to 32 points, all subgroup cosets as filters; every size request; batch transforms of 2..64 rows x 1..18 columns, blow-up to 8; every history of 2 operations on the twiddle cache; without OpenMP and teams of 1,2,3,4,8 threads",
      ["scalar field operations are exact (C04, C05)", "CUDA (Icicle) transforms are not built", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc instead of libgomp"])
check("C16", ["c16_mle", "c16_mle_omp", "c16_mle_asan"],
      "a state is a distinct evaluation table, polynomial, pair of them, linear combination or team size; a transition is one operation, one prover round or one verification compared with the defining sum; a trace is one complete challenge history of the protocol",
      "every table and pair of tables of at most 4 entries over GF(3), 4 (pairs 2) over GF(5), every partial point; all sparse polynomials with at most 3 terms over 1 to 3 variables with exponents at most 3, 2, 1 and all pairs with at most 2 terms; all interpolation inputs of up to 4 points over GF(3), GF(5), GF(7), unit vectors to length 40; sumcheck over GF(5), GF(7) with 1 to 3 variables: every challenge history, every single altered round-message entry, every wrong sum; without OpenMP, teams of 1,2,3,4,8 threads, under AddressSanitizer",
      ["scalar field operations are exact (C04)", "verifier challenges are driven by repeating a round from a saved state until the wanted value is drawn", "the field is larger than the degree of a round message"])
check("C17", ["c17_matrix", "c17_matrix_omp", "c17_matrix_asan"],
      "a state is a distinct matrix, pair of shapes, zero pattern of a sparse matrix or team size; a transition is one matrix operation, view, conversion or packing compared with plain two-dimensional arrays; a trace is one sparse matrix through every conversion",
      "every triple of dimensions 0..6 in row-major and column-major storage with 3 value patterns over GF(97), 0..4 over BabyBear; every 2x2 matrix over GF(5), GF(7) and every 3x3 over {0,1,2} for determinant and inverse (dynamic sizes); bit-reversed rows for 0..256 rows, 0..5 columns; packing and extension-power dot products for 1..20 rows x 0..34 columns over BabyBear, KoalaBear and their degree-4 extensions; every zero pattern of sparse matrices of up to 4x4 (12 cells; thorough 16), 1x10 and 10x1; without OpenMP, teams of 1,2,3,4,8 threads, under AddressSanitizer",
      ["scalar field operations are exact (C04, C05)", "the inverse of matrices of compile-time size does not compile against the Eigen of this sandbox and is not covered"])
check("C12", ["c12_msm", "c12_msm_omp", "c12_msm_asan", "c12_glv"],
      "a state is a distinct list of (base, scalar) pairs, scalar or team size; a transition is one multi-scalar product, fixed-base product, GLV decomposition or GLV product compared with the sum of double-and-add products; a trace is one input through every implementation (Pippenger serial, adapter strategies, fixed base, GLV)",
      "all lists of at most 3 (base, scalar) pairs over every point and scalar of curves over GF(7), GF(13), GF(17) (thinned in the quick tier); one-, two- and many-term lists of scalars of 1 to 381 bits with lengths 1..700 crossing every window size; fixed-base tables for every scalar of GF(7), GF(97), GF(257); every scalar, point and reduced lattice basis of 10 small curves with the cube-root endomorphism; GLV on BN254 and BLS12-381 G1, G2 for small a + b*lambda, powers of two, multiples of the lattice vectors and their neighbours, in four coordinate systems; without OpenMP, teams of 1,2,3,4,8 threads, under AddressSanitizer",
      ["point addition and scalar fields are exact (C04, C10)", "GPU implementations are not built", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc instead of libgomp"])
check("C13", ["c13_pairing", "c13_pairing_omp"],
      "a state is a distinct (curve, pair of points) or list of pairs with a team size; a transition is one pairing or multi-pairing compared with the power of the reference pairing of the generators that the discrete logarithms predict; a trace is one row of the pairing table or one list",
      "BN curves of x = 1 (order 97) and x = -1 (order 13) and BLS12 curves of x = -2 (order 13) and x = 4 (order 241), each with a D and an M twist, generated by the library's generators: every pair of points, prepared and not; all lists of 2 pairs over the small groups, lists of 0..13 pairs with every placement of identities; every element of Fq12 with at most two non-zero coordinates out of 8 values through the final exponentiation; BN254 and BLS12-381: 12x12 (thorough 37x37) multiples and lists of 0..10 pairs; without OpenMP and with teams of 1,2,3,4,8 threads",
      ["field towers and point addition are exact (C06, C10)", "points are in the prime-order subgroups", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc instead of libgomp"])
check("C39", ["c39_ranges", "c39_parallel", "c39_parallel_omp", "c39_parallel_asan"],
      "a state is a distinct sequence or pair of sequences with a comparator and projection, or a container with a team size; a transition is one algorithm call (iterator and range form) or chunked loop compared with its naive definition; a trace is one sequence through every algorithm",
      "every sequence of at most 5 (thorough 7) elements over 3 keys, structured sequences to 33 elements, all pairs of at most 4 and 3 (thorough 5 and 4), with 4 comparators (default, projected, reversed with a computed projection, weak order / asymmetric relation) through 80 algorithms; chunked loops over 0..20 (thorough 40) elements with every chunk size and threshold, callbacks of 1 to 3 arguments, teams of 1,2,3,4,7,8 threads, AddressSanitizer; fill and resize for 0..9 elements, every smaller or larger size and 5 capacities",
      ["base/sort.h (pdqsort, powersort) is not in the build: third_party is not installed", "comparators are strict weak orders where the algorithm requires one", "OpenMP teams run under the deterministic runtime harness/omp_rt.cc instead of libgomp"])
check("C02", ["c02_buffer", "c02_buffer_asan"] + ["c02_types%d%s" % (k, v) for k in (1, 2, 3, 4, 5) for v in ("", "_asan")],
      "a state is a value with an endianness, or a sequence of values, or an offset with a buffer length; a transition is one write or read at one position, capacity, truncation length or corrupted byte; a trace is one value or sequence through every position, capacity, truncation and corruption",
      "every built-in type over all powers of two and limits, 40 strings of each of 4 character types, all vectors of at most 3 and nested containers of 2 elements, all sequences of at most 3 (thorough 4) items over 9 kinds and 3 endiannesses, 13 prime fields (canonical and Montgomery form, raw values around multiples of the modulus), towers, points in 4 coordinate systems over a 13-element field, polynomials of at most 3 coefficients, matrices up to 3x3 in both orders, sponges, commitment keys and sumcheck messages; for each value 3 endiannesses, 4 positions, every capacity, every truncation length and 4 corruptions of every byte (strided beyond 200 bytes); with and without AddressSanitizer",
      ["a field element is serialized in its canonical form (the Montgomery switch is off unless stated)"])
check("C03", ["c03_json", "c03_json_asan"],
      "a state is a value with its JSON form or a malformed document; a transition is one conversion to JSON and back, or one parse; a trace is one value through every mutation of its document",
      "every limit and power of two of 10 integer types, 5 enumerations, 600 (thorough 20000) doubles of all exponents, 76 strings over 8 special characters, nested containers and optionals, BigInt of 1..4 limbs, 6 prime fields (canonical and Montgomery form), towers, points in 4 coordinate systems over a 13-element field, polynomials of at most 3 coefficients; for each value: every node of its document replaced by 41 other values, every member removed, renamed or null, every element removed or added, every truncation and a control character at every position; parse acceptance decided by an independent schema; members looked up by every pair of substrings; with and without AddressSanitizer",
      ["NaN and infinities have no JSON form and are excluded"])
check("C33", ["c33_flags", "c33_flags_asan"],
      "a state is a parser with an argument list (and environment); a transition is one parse through one of the four entry points, compared with an independent reference parser; a trace is one argument list through all entry points",
      "14 parsers (all flag kinds, positionals, required and environment flags, callbacks, subcommands to depth 2); every list of at most 2 (thorough 3) arguments over an alphabet of 54, every list of 3 and 4 (thorough 5) arguments over the arguments relevant to the parser while there are at most 6e4 (thorough 4e6); four entry points; numeric values around every power of two for 8 types in three spellings; ranges with all inclusions; every name of at most 5 characters over 6; with and without AddressSanitizer",
      ["a parser object parses once (flags stay marked as set between parses)", "arguments after -- belong to the forward list and are ignored when there is none", "with ParseKnown an unknown argument takes the following one with it unless that starts with -, as the unit tests fix"])

check("C18", ["c18_poly", "c18_curve0", "c18_curve1"],
      "a state is a scheduling decision, parallel region or finished run; a transition is one memory access checked for happens-before against all earlier accesses of the region; a trace is one execution of an operation under one team size, order and schedule, its result compared with the single-threaded one",
      "every parallel operation of the bulk field helpers, chunking helpers, univariate and multivariate polynomials, evaluation domains and matrix transforms, point batches, multi-scalar multiplication and multi-pairing, on inputs of 1..128 elements, for teams of 1,2,3,4,8 threads in ascending and descending order and every schedule of 3 threads with one deviation from the default order (thorough: two) at region starts, dynamic-loop dispatches, atomics and mutex operations; groups of 2 and 3 threads performing every combination of FFT, batch FFT, coset LDE and coset FFT on own or shared domains with a cold twiddle cache, every schedule with one (thorough: two) deviations; data races reported from happens-before, so one schedule stands for all that order the same synchronisation",
      ["OpenMP, absl::Mutex and atomics run under the deterministic scheduler harness/omp_rt.cc (sequentially consistent; relaxed atomics do not order), so weak-memory effects beyond data races are not explored", "memory touched only inside shared libraries (libstdc++, libc beyond memcpy/memmove/memset) is not tracked", "code that is not built here (FRI, field Merkle trees, plonk provers) is not covered"])
check("C38", ["c38_alloc"],
      "a state is a distinct history of operations, schedule of threads or factory list; a transition is one operation or run compared with a ledger of sizes, records, identifiers and references; a trace is one history or schedule replayed on the real allocator over a stand-in arena that reuses addresses at once",
      "every history of up to 6 (thorough 7) operations out of {allocate 1, 13 or 64 bytes, failing allocation, free oldest/newest/middle, free null, give up ownership}, with sizes tracked by the underlying allocator, locally, locally with a slow exact size, or not at all; two threads running every pair of 8 scripts and three threads every triple of 4, every schedule with 2 (thorough 3) resp. 1 (3) deviations at mutex operations and inside the underlying allocator; release of the tracker by 2..3 threads with 0..2 outstanding allocations each, 2 (thorough 4) deviations, with accesses to released memory and data races reported; registries of 1..3 factories with every priority and NUMA combination",
      ["the underlying allocator follows its contract", "absl::Mutex is replaced by the scheduler harness/omp_rt.cc", "cpu_allocator() and its process-wide statistics switch are not covered"])

check("C21", ["c21_binary", "c21_binary_ompmc", "c21_binary_asan", "c21_field", "c21_field_asan", "c21_field_ompmc"],
      "a state is a committed tree (leaves, parallelization threshold) or a schedule of the team that builds it; a transition is one commitment, opening or (altered) verification compared with the definition over an injective symbolic hash; a trace is one tree with all openings of all leaves and all alterations of each",
      "binary trees: every list of at most 4 leaves over 3 values and 5..9 over 2 with every parallelization threshold 1..32, sizes to 8192 leaves with thresholds to 8192, sequences of 3 (thorough 4) commitments on one tree, teams of 2,3,4,8 threads in both orders and schedules of 2 (thorough 3) delays; field trees over BabyBear (packed and not) and its quartic extension: every list of at most 3 matrices of heights {1,2,3,4,5,8,9,16} and widths 1..3, heights to 128; every index inside and beyond, every altered value, sibling, root, index, height, dropped, added, doubled and swapped element",
      ["the binary tree hash is collision free (64-bit terms), the field tree hash is a 62-bit toy permutation", "heights that round up to the same power of two are equal, as the code requires", "opened rows have the committed widths: rows of equal height are hashed concatenated and the caller (FRI) compares widths", "perfetto and powersort are stand-ins"])

check("C19", ["c19_poseidon", "c19_poseidon2", "c19_sponge", "c19_poseidon_asan", "c19_poseidon2_asan", "c19_sponge_asan"],
      "a state is an input state of a permutation, a sponge state reached by a history, a hashed or compressed message or an integer to serialize; a transition is one permutation, sponge operation, digest or conversion compared with the definition (round by round, one element at a time); a trace is one parameter set or one history",
      "permutations: every state of Poseidon and Poseidon2 (both external layers, diagonals and shifts) over primes 13, 17, 97 and 257 with widths 2..4 where the state space is at most 70000 (bijectivity decided there too), and structured states for widths to 24 and for BabyBear, KoalaBear, Mersenne31, Goldilocks, BN254, BLS12-381, Pallas, Vesta with the published parameters, packed lanes included; parameter generation for 3 matrices per small configuration; sponge: every history of 3..5 (thorough 4..7) absorptions of 0..9 and squeezes of 1..9 elements over 5 rates and capacities; every short message over small alphabets for the hasher and compressor; every 8- and 16-bit integer and the boundary values of the 32- and 64-bit types",
      ["the published constants are pinned to their present values and checked for invertibility, not compared with the publications", "SqueezeBytes, SqueezeBits, squeezes of a foreign field and Fork do not compile in this tree; squeezes of zero elements are not covered", "the icicle (GPU) permutation is not built"])

check("C36", ["c36_rng", "c36_rng_asan"],
      "a state is a history (seed, position, operations), a seed or a restored block position; a transition is one draw, save, restore or seeding compared with an independent implementation of the published generator; a trace is one history",
      "xorshift128 (rand_xorshift seeding) and ChaCha20 (RFC 8439 block function, 64-bit counter): every history of 5 (thorough 6) resp. 4 (5) operations out of {32-bit draw, 64-bit draw, save and restore, short restore and save, seed again, seed of a wrong length, 15 draws} from 6 seeds (one default) and 4 resp. 7 positions around the block edges; all seeds with up to two bits set or cleared (ChaCha20: bits at most 8 apart); every block position 0..40 with 7 counter values around the carries; every history of 4 operations of the C interface",
      ["boringssl's chacha_core is replaced by a stand-in", "SetRandomSeed draws from the operating system and is not covered"])

check("C25", ["c25_cycles", "c28_shplonk", "c28_gwc"],
      "a state is a sequence of links between cells, or a circuit with a witness; a transition is one link added and compared with a union-find, or one proof made or judged; a trace is one link history or one proof carried to the verifier's decision",
      "every sequence of 2..4 links (thorough: 5) over grids of 1..15 cells (self links and repeats included), all 5040 orders of a chain of 8 cells; the permutation polynomials of every sequence of 2..3 links over two fields; all out-of-range cells; with the real prover and verifier over 16 rows: all sets of one or two copy constraints over 4 cells, instances and constants, all lookup witnesses of 2..3 rows over three tables (one and two lookups, selectors, tables in advice columns), all shuffles of 3 rows and of 2 rows of pairs; permuted-column lookups with SHPlonk and log-derivative lookups with GWC",
      ["a fixed blinding seed, a fixed SRS and 16 rows: the argument is decided for the honest prover run on every witness, not against an arbitrary prover"],
      only={h: "copies_all|lookups_.*|shuffles_all|batches" for h in ("c28_shplonk", "c28_gwc")})
check("C26", ["c26_expr", "c26_system"],
      "a state is an expression tree or a set of trees, a set of selector activations, or a configuration history; a transition is one evaluation of a tree at a row by one evaluator, or one configuration step whose bookkeeping is read; a trace is one tree set or one history",
      "every expression tree with two levels of operators over all node kinds (three levels over few leaves), at every row, rotation and scale against a direct reading of the tree by the prover's, verifier's and graph evaluators, all pairs and triples of trees sharing one calculation graph; identifiers of all pairs of trees; every activation pattern of 1 complex and 2 simple selectors over 4 rows, 3 over 3 and 4 over 2, all degree combinations and minimum degrees; all histories of 3 lookups over 7 tables and 3 input degrees, 4 over 4 tables and 2 degrees, with and without a gate; every configuration history of 4 steps, with the degrees read at every step or at the end only; cells queried through expressions in gates, lookups and shuffles; all misplaced simple selectors",
      ["a compressed simple selector may act by any non-zero factor that is the same for all gates and rows of the selector (as in halo2)", "compressing selectors twice is documented as not supported"])
check("C37", ["c37_air", "c37_coset", "c37_coset_asan", "c37_coset_ompmc"],
      "a state is an expression tree, a constraint set, a shape or a coset; a transition is one evaluation, acceptance decision or domain operation compared with an independent reading of the tree or the definition; a trace is one tree or one trace table",
      "every expression with at most two levels of operators over 11 leaves (constants, public values, both rows of main and preprocessed columns) and three levels over 5 leaves, built by copying or moving, on every window of traces of 2..4 rows; structural equality of all pairs of one-operator trees; every one-operator constraint enforced in all four ways on all traces of 2 and 3 rows over a field of three elements, all pairs of subtraction and selector constraints on traces up to 4 rows; all wrong shapes; trace domains of size 2^0..2^4 (2^6) with all shifts of small fields and boundary shifts of BabyBear: points, splitting, disjoint domains, vanishing values and Lagrange selectors at every point (also of the degree-4 extension), selectors on every larger coset, with 1..8 threads",
      ["a trace of one row has no window, so nothing is enforced on it (as coded)", "permutation and challenge variables are not implemented in this tree", "selectors at a point of the domain itself are undefined (division by zero) and not covered"])

check("C35", ["c35_c", "c35_cc", "c35_cc_asan"],
      "a state is a pair of operands, an MSM instance, a matrix or a history of calls on one handle; a transition is one exported function or wrapper method whose result is compared with the core operation or with a model of coefficients and evaluations; a trace is one operand or one history",
      "all exported functions of the 5 prime and 7 extension fields on all pairs of up to 60 (thorough 400) values built from boundary coefficients; of the 4 curve groups in 4 coordinate systems (mixed included) on all pairs of k*G, |k|<=4, with several representatives each; MSM through both entry points for all choices of 0..3 of 3 points and 4 scalars; all wrapper methods, compound assignments, comparisons, streaming and round trips of both curves; every history of 5 (thorough 6) calls out of 8 from 6 starting handles over domains of size 1..8 and all matrix shapes to 4 x 4, with and without AddressSanitizer",
      ["the transform of the zero polynomial may be the empty evaluation list, as in the core", "indices outside the handle are the caller's responsibility, as the API says", "the random generators of the C API are decided by C36"])
check("C32", ["c32_paths", "c32_io", "c32_fs"],
      "a state is a path string (or two), a script of results of system calls, or a directory tree; a transition is one path or file operation compared with a direct model of path names, of the bytes of a file or of the tree; a trace is one string, one script carried to the end of the operation, or one tree",
      "every path made of up to 6 (thorough 7) out of 9 components and separators, and every string of up to 11 (thorough 13) of three characters, through all single-path operations; all pairs of strings of up to 5 (thorough 6) of four characters through appending, parent, order and relative-path operations; every placement of up to 6 (thorough 8) deviations (short, interrupted, failed or one-byte results) over the reads, writes, opens, closes and truncates of whole-file and open-file operations on files of 0..7 bytes; every tree of directories, files and symbolic links over 3..6 places, with every argument in relative, absolute and trailing-slash form, through creation, recursive removal, enumeration, copying, moving, comparison and loading",
      ["a write never returns 0 for a non-empty request", "operations documented as a single read or write may be short", "appending an empty component may or may not add a separator", "directory creation through '..' is not covered", "DirName and BaseName do not strip trailing separators, as the unit tests fix"])
check("C24", ["c24_r1cs", "c24_groth16"],
      "a state is a linear combination (or two), a constraint program or a circuit with an assignment; a transition is one operation, matrix row, query point, key, proof or decision compared with the definition (in the exponents, since all discrete logarithms of the small groups are known); a trace is one program or circuit carried to the end",
      "all pairs of combinations over four variables, every subset of eight variables with every term, scalar and other subset, every list of up to 5 (thorough 6) terms; every program of two nested symbolic combinations of up to two terms and a constraint out of six operand forms, with and without outlining, in setup and proving mode; 16807 two-constraint programs on all 125 assignments; all usage counts and lengths around the outlining threshold; QAPs of 0..3 constraints over 0..2 inputs and witnesses at every point of F17 and a fifth (thorough: all) of F97, all assignments over three values, domains too small, exact and larger; Groth16 over groups of 97 elements: every one-constraint circuit over up to seven forms, shapes up to 5 constraints, 3 inputs and 3 witnesses, every value of each setup secret, every pair of blinding factors, every value of every proof element and input in turn, and of every pair of proof elements",
      ["setup secrets gamma and delta are non-zero", "a second Finalize is not covered", "the discrete logarithm is easy in the explored groups: what is decided is the exact equation, so a wrong proof is accepted exactly when it satisfies the pairing equation"])
check("C27", ["c27_layout"],
      "a state is a list of region shapes (with constants, links, inputs and a table), an occupancy of columns or a list of table assignments; a transition is one cell, link, slot or interval of the resulting layout compared with the definition; a trace is one circuit synthesized to the end by one planner",
      "every pair of region shapes over all subsets of five advice/selector/fixed columns with 1..4 rows, every list of 3 (thorough 4) over three columns and of 4..5 (thorough 6) over two, and lists of up to 3 (thorough 4) of 23 shapes with uneven columns, constants, links to the previous region and instance cells, through both planners with 0..2 constant columns; every occupancy of 7 (thorough 8) rows in two columns with every length and column set through the slot search, and all free intervals within; every sequence of 4 (thorough 5) table assignments; the key and witness assignments at one row too few, exactly enough and one more",
      ["a table that fills all usable rows is refused, as in halo2", "copying a cell of a column without equality enabled is outside the domain"])
check("C20", ["c20_challengers", "c20_challengers_ompmc", "c20_transcripts"],
      "a state is a history of observations and samples (writes and challenges), or a grinding instance; a transition is one challenge compared with a direct model of what it hashes, or with the challenge of a history changed in one place; a trace is one history carried through prover and verifier, or one schedule of the grinding team",
      "challengers over a toy permutation: every history of up to 9 (thorough 11) observations of two values and samples for duplex widths/rates 2/1, 3/2, 4/2, 4/3 (5 and 7 for 8/4 and 16/8), hash outputs 1, 2, 4, 8 and the multi-field challenger of width 1..3, runs to twice the block size, every single change and exchange of neighbours in them; grinding for all histories to 3 operations, bits 0..6, whole field F97 and ranges, with teams of 2, 3, 4, 8 threads under up to 2 delays; transcripts (Blake2b, SHA-256, both Poseidon, simple): every history of up to 5 (thorough 6; Poseidon 3 and 4) writes and challenges with every value changed or exchanged, runs around the block sizes, save and restore, points off the curve, 512-bit reductions",
      ["boringssl's BLAKE2b and SHA-256 are stand-ins written from the RFC and FIPS", "binding is decided for toy permutations without collisions and for the real hashes on the explored histories", "the simple transcript is a running sum, so it binds values but not their order", "the number of observations is not bound: trailing zeros in a fresh duplex state coincide with no observation, as in the design it implements"])

check("C22", ["c22_fri", "c22_fri_asan", "c22_fri_ompmc"],
      "a state is a shape (rounds, matrices, columns, opening points, blow-up, number of queries) proved by the real prover, a codeword spoiled in one place, a polynomial with a folding challenge or a coset; a transition is one commitment, opened value, verification of an honest or altered proof, folded value or selector compared with the definition; a trace is one proof with all its alterations",
      "honest proofs for every arrangement of at most 2 rounds with 3 matrices (3 rounds of one) of 2, 4, 8 rows with 1..3 columns, 0..3 and mixed points, blow-up 2, 4, 8 and 1 or 3 queries, commitments and opened values against naive evaluation; every single changed, dropped, doubled and swapped element of commitments, proof, opened values, points and domains for 9 arrangements with 1..2 points and blow-up 2, 4; every codeword of 7 arrangements spoiled in one place; folding of all monomials of degree below 128 and dense polynomials for 7 challenges; cosets to 2^5 (selectors on cosets to 2^8) for 6 shifts; teams of 2, 3, 4, 8 threads",
      ["the Merkle hash is a 62-bit toy permutation, the challenger is the real Poseidon2", "matrices of one row are refused by the batch FFT", "a failed CHECK in the verifier counts as rejection", "another proof-of-work witness that passes and selects the same positions is as good as the original", "SimpleFRI (a demonstration scheme whose Merkle paths are not tied to the index) and FRI over Mersenne31 circles are not covered", "perfetto, powersort and pdqsort are stand-ins"],
      only={"c22_fri_ompmc": "teams"})

check("C23", ["c23_kzg"],
      "a state is a committed coefficient list, an arrangement of openings (which polynomials at which points, in which order), a setup or a prefix of a saved scheme; a transition is one commitment compared with p(tau)G, or the verification of an honest or altered opening; a trace is one arrangement proved and verified with all its alterations",
      "setup of size 8 over BN254 with known tau: all coefficient lists of length 0..3 over {0, 1, -1, large}, all one- and two-entry and dense lists of length 4..8, in coefficient, evaluation and batched form; GWC and SHPLONK openings for every assignment of non-empty subsets of 3 points to 1, 2 or 3 polynomials of degree 7, 4 and 1, by polynomial and by point, plus opening at 0 and of constants; every changed opening, point, commitment and proof element, every exchanged or compensated pair, proofs cut by a byte or an element; setups of size 2, 4, 8 shrunk to every size; every prefix of a saved scheme within 400 bytes of its ends; Pedersen commitments of every vector of length 1..3 and single changes of length 4..8 for 4 blinding factors",
      ["the transcript is Blake2b (stand-in for boringssl) after the commitments; openings are absorbed by the caller's protocol (C28)", "a failed CHECK in the verifier counts as rejection", "the GPU paths are not built", "perfetto, powersort and pdqsort are stand-ins"])

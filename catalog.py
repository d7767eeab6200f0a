"""The listed properties: what run.py, tools/gen.py and setup.py know about each check."""

def P(id, title, statement, text, why, files, mech, rule, **kw):
    d = dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, rule=rule)
    d.update(kw)
    return d

M = "include/altruct/algorithm/math/"
SM = "include/altruct/structure/math/"
SC = "include/altruct/structure/container/"
SG = "include/altruct/structure/graph/"
IO = "include/altruct/io/"
XC = "experimental/include/altruct/structure/container/"
EG = "experimental/include/altruct/algorithm/graph/"
TAIL = " Cases are drawn from a seeded choice sequence; distinct cases are counted by the hash of their choices (at most 2^20 per sub-property and worker)."

PROPS = [
P("C01", "Integer roots, division, gcd and powers are exact on whole domains",
  "The integer square and cube roots, the floor/ceiling/rounding divisions and multiples, gcd/lcm/extended gcd and fast powers return the mathematically exact value for every argument of every supported integer type for which that value is representable, without undefined behaviour. The extended gcd returns coefficients that satisfy Bezout's identity and are bounded by the arguments.",
  "all values of the 8 to 64-bit signed and unsigned integer types in the documented domains, with emphasis on type limits, squares/cubes and their neighbours",
  "The tests try a dozen values per function; rounding of floating-point roots, sign combinations and type limits are a question about every input.",
  [M + "base.h", "src/algorithm/math/base.cpp"],
  [("isqrt/icbrt correct the floating-point estimate", "src/algorithm/math/base.cpp"), ("div_floor/div_ceil/div_round, gcd_ex, powT", M + "base.h")],
  "Non-trivial: an argument outside the tiny range or next to a perfect power/type limit, or operands of different signs (per sub-property)." + TAIL),
P("C02", "Bit operations agree with bit-by-bit definitions at every width",
  "Counting, reversing, searching, extracting, Gray-coding and aligning bits agree with their bit-by-bit definitions for every value of every integer width, round-trips (reverse, Gray code, swap) restore the value, and next-combination enumerates the next larger integer with the same number of set bits.",
  "all values of 8, 16, 32 and 64-bit integers (16-bit exhaustively)",
  "The tests check a few constants of some widths; the masks and shifts must be right for each of 2^64 inputs and each type.",
  [M + "bits.h", "src/algorithm/math/bits.cpp", M + "intrinsic.h"],
  [("bit tricks with width-dependent masks", M + "bits.h")],
  "Non-trivial: a value with more than two set bits. All 16-bit values are enumerated." + TAIL),
P("C03", "Modular numbers form the ring Z/m for every storage and modulus",
  "Addition, subtraction, negation, multiplication, division, power and comparison of modular numbers equal the same operation on integers followed by reduction modulo M, for run-time, static and constant moduli and every value width, including moduli close to the limit of the type. Values are always kept reduced to [0, M), whatever integer (negative, too large) they are created from.",
  "all operand values and moduli of 32 and 64-bit signed and unsigned types",
  "The tests use a handful of small moduli; overflow for large moduli and normalization of extreme values depend on the operands.",
  [SM + "modulo.h"],
  [("modulo_normalize, modulo_add/sub/mul/div/inv and their wide multiplication", SM + "modulo.h")],
  "Non-trivial: modulus above 2 and operands that are not both 0 or 1." + TAIL),
P("C04", "Chinese remainders, mixed radix, Jacobi symbol, modular square roots",
  "Combining congruences yields the unique solution modulo the least common multiple exactly when one exists, also for moduli that share factors and results that fill the integer type; mixed-radix digits reconstruct the number whatever the order of the moduli. The Jacobi symbol equals the product of Legendre symbols, and modular square roots are returned completely and correctly for prime, prime-power and composite moduli.",
  "all pairs/lists of congruences of 32/64-bit signed and unsigned types, all odd moduli, all quadratic residues",
  "The tests check a few systems with coprime moduli and a few primes; overflow, shared factors and order of moduli are never varied.",
  [M + "modulos.h"],
  [("chinese_remainder, garner, jacobi, sqrt_cipolla, sqrt_hensel_lift, sqrt_mod", M + "modulos.h")],
  "Non-trivial: two moduli above 1 / a modulus with more than one prime or a root other than the trivial ones." + TAIL),
P("C05", "Orders, primitive roots, roots of unity and discrete logarithms are right",
  "Multiplicative orders are the smallest exponents giving one, primitive roots generate all units (and none is reported when none exists), roots of unity have the maximal order, sets of k-th roots are complete, and every discrete-logarithm algorithm returns an exponent that reproduces the target whenever one exists.",
  "all moduli (cyclic or not), units, exponents and targets inside the documented domains",
  "The tests use a few moduli; degenerate elements (order one, equal, trivial modulo p) and structure of the group depend on the input.",
  [M + "modulos.h", "src/algorithm/math/modulos.cpp"],
  [("multiplicative_order, primitive_root, kth_roots, discrete_log_* (baby-giant, Pohlig-Hellman, Bach)", M + "modulos.h")],
  "Non-trivial: modulus above 6 and base/target other than 1." + TAIL),
P("C06", "Sieves, prime holder and functions of a factorization match definitions",
  "Every table computed by sieving (primes, prime count, totient, Moebius, number of prime factors, divisor sums, smallest/biggest factors), whole or by segment, equals the definition of the function at every index, and stays within the documented array sizes. The prime holder answers the same whatever order its tables are requested in, and the divisors, totient and similar functions of a factorization agree with direct computation; digit conversion round-trips.",
  "all table sizes, segments [b, e) up to 10^12, query orders and factorizations",
  "The tests compare one table of fixed size; boundary sizes (0, 1, prime squares), arbitrary segments and query order are never varied.",
  [M + "primes.h", "src/algorithm/math/primes.cpp", SM + "prime_holder.h"],
  [("Eratosthenes-style sieves with per-segment corrections", "src/algorithm/math/primes.cpp"), ("lazy tables", SM + "prime_holder.h")],
  "Non-trivial: table or segment longer than a few entries, or a factorization with at least two primes." + TAIL, budget=14),
P("C07", "Primality is exact and factorization complete for all 64-bit integers",
  "The primality test answers correctly for every 32 and 64-bit integer including strong pseudoprimes, and factorization returns distinct primes with exponents whose product is the input. The trial divisor, factor extraction, enumeration of numbers composed of given primes and joint reduction of fractions obey their definitions.",
  "all integers of 32 and 64-bit types, biased to pseudoprimes, prime powers, semiprimes, smooth numbers",
  "The tests try a few primes and composites; a wrong witness base or a missed factor shows only on special integers.",
  [M + "factorization.h"],
  [("miller_rabin bases by magnitude, pollard_rho_repeated, factor_integer", M + "factorization.h")],
  "Non-trivial: odd n above 100 / composite n with a nontrivial factorization." + TAIL),
P("C08", "Prime counts, prime power sums and Mertens sums are exact at every n/k",
  "The sublinear algorithms for counting primes (also by residue modulo 4), summing powers of primes and summing the Moebius function return the exact value at n and at every floor(n/k), for every n, value type and run-time modulus, independent of earlier calls.",
  "all n up to 10^6 (spot checks to 10^8), powers 0..8, several rings, all admissible table sizes and prime lists",
  "The tests check a few n; square/cube boundaries, tiny n, prime lists of minimal size and sequences of calls with different moduli are not tried.",
  [M + "prime_counting.h", M + "prime_pi.h", M + "mertens.h", M + "sums.h"],
  [("Lucy-style sieve over a map of n/k", M + "prime_counting.h"), ("Meissel-Lehmer", M + "prime_pi.h"), ("sum_m and sum_multiplicative", M + "divisor_sums.h")],
  "Non-trivial: n above 10." + TAIL),
P("C09", "Dirichlet algebra and sublinear sums of arithmetic functions match definitions",
  "Dirichlet convolution, division, inverse and Moebius transform, in their general, multiplicative and completely multiplicative variants, agree with the defining divisor sums for arbitrary functions; sieved and sublinear summation of arithmetic functions (by convolution identities or from values at primes) equals the direct sum at every requested argument.",
  "arbitrary arithmetic functions over prime fields, all table sizes, all n, precomputation bounds and prime lists",
  "The tests use a few classical functions and fixed n; the identities must hold for every function and size.",
  [M + "divisor_sums.h", SC + "sqrt_map.h"],
  [("dirichlet_*", M + "divisor_sums.h"), ("sieve_m, sum_m, sum_multiplicative, sum_multiplicative_34", M + "divisor_sums.h")],
  "Non-trivial: table longer than 6 entries / n above 6." + TAIL),
P("C10", "Closed-form and block sums, table builders and reductions match direct sums",
  "Floor-ratio sums, power sums, sums of n/k type, look-up table builders (factorials, inverses, powers), in-place range operations, container reductions and the special number sequences equal their term-by-term definitions for every argument, sign, table size and number type, and evaluate the supplied functions only inside their domain.",
  "all coefficients and signs, lengths, exponents, arbitrary summand functions, integer/modular/fraction types, empty and repeated data",
  "The tests use small grids and one table of 16 entries; signs, empty tables, duplicates, other types and long Euclid-like chains are never varied.",
  [M + "sums.h", M + "ranges.h", M + "reduce.h", M + "sequences.h"],
  [("sum_ratio (Euclid-like), sum_pow (Faulhaber), sum_powx, sum_sqrt*", M + "sums.h"), ("table builders", M + "ranges.h")],
  "Non-trivial: more than two terms and no degenerate coefficients (per sub-property)." + TAIL),
P("C11", "Combinatorial enumeration, counting numbers and modular binomials are exact",
  "Enumerating combinations and partitions visits every arrangement exactly once in lexicographic order and ends by restoring the first one; the n-th permutation is the one with that factoradic index. Stirling numbers, partition numbers, multinomials, prime exponents of factorials and binomials, tables of factorials and inverses, and factorials/binomials modulo prime powers equal their definitions for arbitrarily large arguments.",
  "all small sets (with repeated elements), all indices of integer types, all n, k up to 2^62, all prime powers up to 6000",
  "The tests use a few fixed sets and n up to 100; carries, signs of Wilson factors, overflow and repeated elements depend on the input.",
  [M + "combinatorics.h", M + "comb_primes.h", M + "comb_mod_pp.h", M + "counting.h", SM + "factorial_holder.h"],
  [("next_combination/next_partition/nth_permutation", M + "combinatorics.h"), ("Granville binomials", M + "comb_mod_pp.h"), ("Stirling/partition generating functions", M + "counting.h")],
  "Non-trivial: more than three elements and a proper selection / n above p with exponent above one (per sub-property)." + TAIL),
P("C12", "Convolutions and Fourier transforms match their definitions",
  "Additive (cyclic and plain), Dirichlet-like, bitwise or/and/xor and the other convolutions equal the direct double sum for every length and coefficient ring, forward and inverse transforms are mutual inverses, and a transform equals evaluation at the powers of the root. Root tables return the right root whatever sizes were requested before.",
  "all vectors, lengths (powers of two or not), element types, roots and histories of root requests",
  "The tests use one or two vectors per function; wrong indices for particular lengths and shared root tables only show for other inputs and histories.",
  [M + "convolutions.h", M + "fft.h", SM + "root_wrapper.h", SM + "complex.h"],
  [("butterflies and subset-sum transforms", M + "convolutions.h"), ("Cooley-Tukey, Bluestein-like sizes, convolution via FFT", M + "fft.h"), ("shared table of complex roots", SM + "root_wrapper.h")],
  "Non-trivial: vectors with at least two elements, not all equal/zero." + TAIL),
P("C13", "Polynomials form a ring with exact division, whatever algorithm is used",
  "Addition, multiplication, division with remainder, evaluation, derivative and integral of polynomials match the coefficient-wise definitions for every degree, ring and aliasing of operands; every multiplication algorithm (long, Karatsuba, FFT variants) inside its documented limits gives the same product. Residues modulo a polynomial form a ring, discrete sums match sums, and real zeros are found completely.",
  "all polynomials (leading zeros, zero polynomial, all sizes around the algorithm thresholds) over 32/64-bit prime fields, integers, fractions and reals",
  "The tests use a few short polynomials; thresholds between algorithms, in-place use and truncation depend on lengths and operands.",
  [SM + "polynom.h", M + "polynom_mod.h", M + "polynoms.h", SM + "modulo.h"],
  [("in-place long/Karatsuba multiplication and division", SM + "polynom.h"), ("split FFT and CRT multiplication", M + "polynom_mod.h"), ("find_zeros, monotonic_search, polynom_sum", M + "polynoms.h")],
  "Non-trivial: operands of degree at least one or two (per sub-property)." + TAIL),
P("C14", "Power series operations are exact modulo x^N for every N",
  "Sums, products, quotients, inverse, derivative, integral, shifts, substitutions, composition, reversion, exp, ln, powers and Newton roots of power series equal the coefficient-wise definitions modulo x^N for every length N, every exponent (also for series without constant term) and every storage kind of N. Copying, moving, resizing and casting keep N and the coefficients.",
  "all series of length 1 to 40 over prime fields of 32/64 bits, all shifts, exponents up to 2^63 and storage kinds",
  "The tests use a few fixed series of two or three lengths; degenerate lengths, large exponents and zero leading coefficients depend on the input.",
  [SM + "series.h", SM + "polynom.h"],
  [("Newton doubling for inverse/exp/reversion, baby-step composition, pow through ln/exp", SM + "series.h")],
  "Non-trivial: at least two or three coefficients." + TAIL),
P("C15", "Matrix algebra, determinant, rank, inverse and powers are exact",
  "Matrix sums, products, transposes, submatrices and powers equal the entry-wise definitions for all shapes. Over any field the determinant is multiplicative and zero exactly for singular matrices, the rank equals the number of independent rows (and columns) and the inverse is two-sided whenever it exists.",
  "all matrices up to 9x9 over prime fields (2 to 2^63), integers and fractions, singular ones included",
  "The tests use two or three regular matrices; pivoting with dependent columns and rank deficiency depends on the matrix.",
  [SM + "matrix.h"], [("Gauss-Jordan elimination with row swaps", SM + "matrix.h")],
  "Non-trivial: more than one row (and column)." + TAIL),
P("C16", "Linear recurrences are evaluated, extended and recovered exactly",
  "The n-th element of a linear recurrence (Fibonacci and Lucas sequences included) equals n steps of the recurrence for every order, initial values, ring and n up to 2^63. Berlekamp-Massey recovers a recurrence of minimal order from any sequence of sufficient length, and Bernoulli numbers satisfy their defining identity.",
  "all recurrences of order up to 7, indices up to 2^63, prime fields and fractions, sequences of any length of at least twice the order",
  "The tests check Fibonacci-like sequences; order one, zero coefficients, odd lengths and run-time moduli are not sampled.",
  ["include/altruct/algorithm/math/recurrence.h", SM + "modulo.h", SM + "polynom.h"],
  [("x^n modulo the characteristic polynomial", M + "recurrence.h"), ("Euclid-style Berlekamp-Massey", M + "recurrence.h")],
  "Non-trivial: order above one and a non-zero sequence (per sub-property)." + TAIL),
P("C17", "Continued fractions, Farey neighbours, digits and lattice minima are exact",
  "Continued fractions and their convergents reconstruct the number and contain all best approximations, square-root convergents stop at the first denominator beyond the bound, Farey neighbours are the nearest fractions with bounded denominators, and digit expansions (period, pre-period, any far digit) equal long division. The lattice point closest to a line and the minimum of a floor ladder are attained over the whole range.",
  "all fractions, signs, orders, bases, positions up to 2^63, and coefficient signs/ranges of the minimization problems",
  "The tests check a few fractions and two or three lines; signs, degenerate slopes and range borders decide the branches.",
  [M + "convergents.h", M + "fractions.h", SM + "fraction.h"],
  [("Euclid-like recursions for closest point and ladder", M + "convergents.h"), ("farey_neighbour, repeating_decimal, rational_digit", M + "fractions.h")],
  "Non-trivial: non-integer fraction, non-degenerate line or range (per sub-property)." + TAIL),
P("C18", "Pell equations, triples and sums of squares are solved completely",
  "Solutions of (generalized) Pell equations satisfy the equation, fundamental solutions are minimal, every solution belongs to exactly one listed class and listings up to limits are complete and without duplicates. The generators of Pythagorean, offset, Eisenstein and almost-Pythagorean triples and of representations as sums of two squares list exactly the existing ones.",
  "all non-square D, right-hand sides of both signs, limits, offsets, legs and factorizations in the searched range",
  "The tests check two equations and a few limits; unit signs, imprimitive solutions and limits that cut before the first solution are not sampled.",
  [M + "pell.h", M + "triples.h", M + "squares_r.h", M + "modulos.h"],
  [("PQa continued fraction expansion, class enumeration", M + "pell.h"), ("parametrizations without duplicates", M + "triples.h"), ("cornacchia and Gaussian composition", M + "squares_r.h")],
  "Non-trivial: |N| > 1, limits above 10, or n > 5 (per sub-property)." + TAIL),
P("C19", "Quadratic, projective, Moebius, nimber and GF(2) arithmetic is exact",
  "Quadratic numbers a + b sqrt(D) follow ring and field arithmetic with conjugate, norm and componentwise truncated integer division for every storage mode of D; with_infinity is the projective line over its base; Moebius transformations and anti-transformations act, compose, invert and normalize like 2x2 matrices on homogeneous coordinates. Nimbers satisfy the mex definitions and field laws, GF(2) words are polynomial arithmetic modulo the given polynomial, and symbolic terms print the expression that was built.",
  "all operands including zero, infinity, poles and self-aliased in-place updates, every D and modulus in the searched range",
  "The tests check a few fixed operands each; in-place updates with themselves, infinite operands and poles are mostly not sampled.",
  [SM + "quadratic.h", SM + "complex.h", SM + "with_infinity.h", SM + "moebius_tr.h", SM + "nimber.h", SM + "galois_field_2.h", SM + "symbolic.h"],
  [("multiplication and division of quadratic numbers", SM + "quadratic.h"), ("projective arithmetic", SM + "with_infinity.h"), ("composition with conjugation", SM + "moebius_tr.h"), ("nim multiplication by splitting", SM + "nimber.h"), ("carry-less multiplication and reduction", SM + "galois_field_2.h")],
  "Non-trivial: both irrational parts present; a transformation with a pole; operands above the trivial subfield (per sub-property)." + TAIL),
P("C20", "Vectors and geometric algebras compute the exact algebra products",
  "Every operator between the blades, composites and multivectors of pga (sum, difference, geometric, outer, inner and regressive product, sandwich by a versor, dual, reverse, norms, inverse) equals the product of the algebra G(3,0,1) computed blade by blade, and joins, meets, translations, rotations and reflections of points, lines and planes agree with coordinate geometry. cl3 rotors, vectors and multivectors do the same for G(3,0), and vector2d, vector3d and vectorNd follow componentwise arithmetic, ordering and their dot and cross products.",
  "all coefficients in a prime field (so identities are exact) and all pairs of operand types; sandwiches by elements whose norm is a scalar",
  "The tests compare printed formulas for one symbolic operand per type; cl3 is tested on few numeric operands, and geometric meaning on single examples.",
  [SM + "vector2d.h", SM + "vector3d.h", SM + "vectorNd.h", SM + "clifford3.h", SM + "pga.h"],
  [("per-type product tables", SM + "pga.h"), ("sandwich formulas", SM + "pga.h"), ("rotor/vector products and inverse", SM + "clifford3.h")],
  "Non-trivial: the product is not zero; all parts of both multivectors are present." + TAIL, flags=["-O0"]),
P("C21", "Permutations form a group with exact powers, roots and cycle forms",
  "For every permutation given as a line, cycles or transpositions, conversions are lossless, products act like composed rearrangements, inverses and powers by any 64-bit exponent are exact, and sign, order and cycle structure agree with the definition. A T-th root is found exactly when one exists, and its T-th power is the original permutation.",
  "all permutations up to the searched size, exponents over the whole 64-bit range, roots exhaustively for small sizes",
  "The tests use a few fixed permutations and small exponents.",
  [SM + "permutation.h"],
  [("cycle decomposition", SM + "permutation.h"), ("power by stepping along cycles", SM + "permutation.h"), ("root by merging cycles", SM + "permutation.h")],
  "Non-trivial: a permutation with a cycle longer than two and an exponent that is not 0 or 1." + TAIL),
P("C22", "double_int is exact two-word integer arithmetic",
  "For every word type, signed or unsigned, and any nesting, double_int addition, subtraction, multiplication, shifts by any amount below the width, bitwise operations, negation, increments, comparisons and conversions from built-in integers agree with exact arithmetic modulo 2^bits in two's complement, in place and aliased too.",
  "all operand bit patterns biased to word boundaries and signs, all shift amounts, words of 8 to 64 bits and nested pairs",
  "The tests are a handful of 64/128-bit values; sign propagation across words, shifts by at least a word and aliasing are not sampled.",
  ["experimental/include/altruct/structure/math/double_int.h"],
  [("carry and borrow propagation", "experimental/include/altruct/structure/math/double_int.h"), ("shifts across the words", "experimental/include/altruct/structure/math/double_int.h"), ("full-width multiplication", "experimental/include/altruct/structure/math/double_int.h")],
  "Non-trivial: both words of the operands matter (carry, borrow or a shift across the boundary)." + TAIL),
P("C23", "Binary searches find the boundary and KMP finds every occurrence",
  "For every monotone predicate and every range whose length is representable, the binary searches over integers and iterators return the first true position without evaluating the predicate outside the range; the real variants end within eps of the boundary, and lower/upper_bound_num do so for increasing and decreasing functions. kmp_search reports exactly the positions of all (also overlapping) occurrences of a non-empty pattern in order, stops when told to and returns the last reported position or the text length.",
  "all integral types and iterators, ranges including the limits of the type, eps from zero to above the range, texts and patterns",
  "The tests search a handful of fixed thresholds and one text.",
  ["include/altruct/algorithm/search/binary_search.h", "include/altruct/algorithm/search/kmp_search.h"],
  [("binary_search_pred/num", "include/altruct/algorithm/search/binary_search.h"), ("failure function", "include/altruct/algorithm/search/kmp_search.h")],
  "Non-trivial: the boundary is strictly inside the range; the pattern occurs at least twice." + TAIL),
P("C24", "Polynomial hashes are exact polynomials; equal substrings hash equal",
  "Every polynomial hash operation (add, subtract, multiply, shift up and down, add at a position, sub_shr) computes the residue of the corresponding polynomial for each modulus, and cumulative_hash::get(b, e) equals the hash of that substring by definition over any history of assign, push_back and pop_back, for negative elements too. Hashes of pairs and tuples depend only on the value, and small distinct values do not systematically collide.",
  "all sequences, substrings, shift amounts, numbers of bases and moduli up to 2^30 (2^61 for the wide variant)",
  "The tests hash one short string and compare fixed constants.",
  ["include/altruct/algorithm/hash/polynomial_hash.h", "include/altruct/algorithm/hash/std_tuple_hash.h", "include/altruct/algorithm/hash/std_hash_combine.h"],
  [("mul, add, sub_shr, powers of the base", "include/altruct/algorithm/hash/polynomial_hash.h"), ("cumulative_hash", "include/altruct/algorithm/hash/polynomial_hash.h"), ("hash_combine", "include/altruct/algorithm/hash/std_hash_combine.h")],
  "Non-trivial: two different equal substrings longer than one element were compared; a shift of more than one." + TAIL),
P("C25", "Collection helpers equal their definitions",
  "For every collection and iterator range, sorted, reversed, take, filter, transform, run_length, contains and compare (with every length limit) return what their element-wise definition says, keep the input unchanged, and reserve_more guarantees room for the requested elements with geometric growth and unchanged contents.",
  "all contents, container kinds, counts including the largest, and length limits",
  "The tests use one short vector per helper.",
  ["include/altruct/algorithm/collections/collections.h"],
  [("compare with max_len", "include/altruct/algorithm/collections/collections.h"), ("run_length", "include/altruct/algorithm/collections/collections.h")],
  "Non-trivial: a strict part was taken, runs were merged, or the length limit changed the result of a comparison." + TAIL),
P("C26", "Random generators follow their sequences and ranges",
  "mtrand produces the MT19937 sequence for every seed and key array, continues it after save/load, streaming, copying and assignment, and its real and range functions transform it as documented; the xorshift generators follow their recurrences. Mapping a word to [min, max] always stays inside, hits every value as evenly as possible, and uniform selection rejects exactly the biased words (at most 20 draws), for full ranges too.",
  "all seeds, keys, states, positions in the sequence and ranges",
  "The tests compare the first outputs of one seed and a few ranges.",
  ["include/altruct/algorithm/random/mersenne_twister.h", "include/altruct/algorithm/random/xorshift.h", "include/altruct/algorithm/random/random.h"],
  [("reload / twist", "include/altruct/algorithm/random/mersenne_twister.h"), ("save, load, copy", "include/altruct/algorithm/random/mersenne_twister.h"), ("biggest_multiple, uniform_next", "include/altruct/algorithm/random/random.h")],
  "Non-trivial: more than one state block was consumed; the width does not divide the word size." + TAIL),
P("C27", "Infix expressions are converted and evaluated by their grammar",
  "For every well formed token sequence over any table of binary and prefix operators with precedence and associativity, parentheses, functions of any number of arguments and comma separated expressions, infix_to_postfix emits the postfix form of the parse prescribed by the precedences, and evaluate_postfix yields the value of each expression. The predefined integer operator tables follow C precedence and semantics, the real functions those of the standard library.",
  "all operator tables, expressions and operand values (prefix operators are right associative, as in the predefined tables)",
  "The tests convert three fixed expressions; shifts, relational, bitwise and logical operators are untested (TODO).",
  ["include/altruct/algorithm/parser/shunting_yard.h"],
  [("pop_operators and operator_desc::operator<", "include/altruct/algorithm/parser/shunting_yard.h"), ("argument counting at the right parenthesis", "include/altruct/algorithm/parser/shunting_yard.h")],
  "Non-trivial: more than six tokens (five for the predefined tables) and no undefined operation in the evaluation." + TAIL),
P("C28", "GMP integers bridge to words and modular arithmetic exactly",
  "Conversions between GMP integers and machine words preserve the value modulo the width of the word for either sign; the integer helpers (floor and ceil division, gcd, roots, powers, primality, bit tests) satisfy their defining identities for integers of any size, and the generic algorithms instantiated with GMP integers agree with them. Modular numbers over GMP integers form the ring Z/m, always reduced to [0, m).",
  "integers of up to hundreds of bits of either sign biased to powers of two and word limits; any modulus",
  "No test includes this header at all.",
  [M + "gmp_helpers.h", M + "base.h", SM + "modulo.h"],
  [("casts between mpz and words", M + "gmp_helpers.h"), ("mpz specializations of modular arithmetic", M + "gmp_helpers.h")],
  "Non-trivial: a value or modulus beyond 64 bits (or beyond 32 bits for the word functions)." + TAIL, libs=["-lgmpxx", "-lgmp"]),
P("C29", "fraction is the field of rationals, always in lowest terms",
  "Every fraction is kept in lowest terms with a positive denominator. Sums, differences, products, quotients, negation, reciprocal, comparison and their assignment forms (also with the same object on both sides) equal the operation on rational numbers whenever the unreduced numerator and denominator fit the integer type, for machine integers up to 128 bits and for GMP integers of any size; generic algorithms (powers, polynomials, matrices) over fractions obey the field identities.",
  "all pairs of fractions whose cross products fit the type, either sign of numerator and denominator, common factors of any kind, long chains of operations",
  "The tests use one pair of small fractions per operator; signs, common factors, aliasing and the reduction between steps are a question about every pair and chain.",
  [SM + "fraction.h"],
  [("reduction to lowest terms after every operation", SM + "fraction.h"), ("assignment operators that read the operand while writing the target", SM + "fraction.h")],
  "Non-trivial: both fractions non-integer and non-zero, chains of several steps (per sub-property)." + TAIL, libs=["-lgmpxx", "-lgmp"]),
P("C30", "binary_search_tree is an ordered set, counted set or multiset with ranks",
  "For every history of insertions, erasures by key, position or range, queries, copies, moves, swaps and clears, in each duplicate mode and as set or map, the contents, order, counts and returned iterators of binary_search_tree equal those of a sorted sequence. Iterators to other elements stay valid, sizes of subtrees and rank operations (find_kth, pos, add, count_less) are exact, and every value is destroyed exactly once.",
  "all operation histories, key distributions, comparators and duplicate modes",
  "The tests walk a few fixed trees; erasing nodes with two children in all positions, counted partial erasures, clear and moves in mixed histories are not sampled.",
  [SC + "binary_search_tree.h"],
  [("swap_with_descendant + single-child unlink", SC + "binary_search_tree.h"), ("subtree size propagation", SC + "binary_search_tree.h"), ("self-linked nil node", SC + "binary_search_tree.h")],
  "Non-trivial: at least one element was erased and more than five inserted." + TAIL),
P("C31", "treap and lazy_treap are ordered containers that stay balanced",
  "For every history of operations, in each duplicate mode and with every random generator (constant, few values, negative values), treap contents, counts, ranks, iterators and comparisons equal those of a sorted sequence, and with a good generator the height stays logarithmic. lazy_treap insertions, erasures and searches keep a stable sorted multiset.",
  "all operation histories, generators, comparators and duplicate modes",
  "The tests use one generator and short histories; balance, re-insertion of existing keys and partial erasures are not checked.",
  [SC + "treap.h", SC + "lazy_treap.h", SC + "binary_search_tree.h"],
  [("retrace_up rotations", SC + "treap.h"), ("retrace_down before erase", SC + "treap.h"), ("rotations", SC + "binary_search_tree.h")],
  "Non-trivial: at least one element was erased and more than five inserted (more than three given, for the constructors)." + TAIL),
P("C32", "rope behaves like an indexable sequence",
  "For every history of insertions at positions or iterators, push_back, erasures of positions and ranges, element writes, copies, moves and swaps, rope holds the same sequence as std::vector. Random access iterator arithmetic, comparisons of iterators and lexicographic comparisons of ropes agree with positions and sequences, and every value is destroyed exactly once.",
  "all histories, positions and contents including duplicates",
  "The tests use short fixed sequences; mixtures of insertions and erasures at arbitrary positions and copies are not sampled.",
  [SC + "rope.h", SC + "treap.h", SC + "binary_search_tree.h"],
  [("implicit keys by rank", SC + "rope.h"), ("insert_before", SC + "binary_search_tree.h")],
  "Non-trivial: at least one element was erased and more than five inserted." + TAIL),
P("C34", "link_cut_tree maintains a rooted forest under link and cut",
  "After every history of add, link, cut and element updates, find_root, find_parent, find_lca, depth, the aggregate of the path from the root (for non-commutative functions as well) and guided traversal of that path answer as in the plain forest. Paths of tens of thousands of nodes are handled fast.",
  "all forests and histories of links, cuts, updates and queries",
  "No test instantiates this structure.",
  [SC + "link_cut_tree.h"],
  [("access / preferred paths", SC + "link_cut_tree.h"), ("splay rotations with aggregate update", SC + "link_cut_tree.h")],
  "Non-trivial: a real cut happened and a link created depth above two." + TAIL),
P("C35", "Segment trees and the Fenwick tree answer range queries exactly",
  "After any sequence of element updates, rebuilds and (for lazy_segment_tree) range updates, including updates that recurse into segments, every range query equals folding the elements in order, also for non-commutative functions and sizes that are not powers of two; restore exposes the current elements. fenwick_tree prefix queries equal the fold of all added values.",
  "all sizes, update histories, ranges, commutative and non-commutative functions",
  "The tests use commutative sums or a couple of sizes; boundaries of ranges against pending updates are sampled rarely.",
  [SC + "segment_tree.h", SC + "lazy_segment_tree.h", SM + "fenwick_tree.h"],
  [("bottom-up range walk keeping order", SC + "segment_tree.h"), ("propagation along the two borders of a range", SC + "lazy_segment_tree.h"), ("low bit steps", SM + "fenwick_tree.h")],
  "Non-trivial: updated and queried a range of more than one element." + TAIL),
P("C36", "bit_vector operations equal bit by bit semantics",
  "For every word type, size and range, bit_vector's element access, resizing, logical operators on vectors of any sizes, shifts by any amount, range operations (also between overlapping ranges of one vector), reverse, swap, rotations, Hamming distance, comparison, scanning and conversion to string equal the same operations on a plain sequence of bits. Bits past the end never influence results.",
  "all word types, sizes around word boundaries, ranges, offsets, shift counts and operation sequences",
  "The tests use one word type and never call the shift operators or resize after other operations.",
  [SC + "bit_vector.h", M + "bits.h"],
  [("boundary word masks in apply/scan", SC + "bit_vector.h"), ("reverse across words", SC + "bit_vector.h"), ("forward/backward order for overlapping ranges", SC + "bit_vector.h")],
  "Non-trivial: a mutating operation on a vector longer than one word." + TAIL),
P("C37", "binary_heap always yields the first element by its comparator",
  "After any history of construction, insertion, removal and rebuild, front is a minimal element of the current multiset with respect to the comparator, repeated removal yields all elements in order and sort leaves all elements sorted by the comparator.",
  "all element sequences, comparators and histories",
  "The tests use one sequence and comparator per method.",
  [SC + "binary_heap.h"], [("heapify_up/heapify_down", SC + "binary_heap.h")],
  "Non-trivial: elements were both inserted and removed (more than three elements for the numeric check)." + TAIL),
P("C38", "sqrt_map and lohi_map behave like a map on their key domain",
  "For all keys k and floor(max/k) that a sqrt_map admits, and all keys of a lohi_map, count, insert, erase, at, operator[] and the unchecked accessors behave like std::map over every history, including default creation after erasing, and including reset_max, swap and copies for sqrt_map.",
  "all maximal keys, low limits and histories over admissible keys",
  "The tests insert a few keys; perfect squares, limits above the root and reuse after erase are not sampled.",
  [SC + "sqrt_map.h", SC + "lohi_map.h"],
  [("low index k, high index max/k", SC + "sqrt_map.h"), ("vector below, hash map above the limit", SC + "lohi_map.h")],
  "Non-trivial: a present key was erased and a high key was used." + TAIL),
P("C40", "bounded_contiguous_allocator hands out each of its elements once",
  "At any time the allocated elements are distinct, come from one contiguous range of capacity elements and keep their contents; exactly capacity elements can be in use and more, or other counts than one, throw std::bad_alloc. Copies have the same capacity and memory of their own, so containers that use it can be copied, moved and swapped.",
  "all capacities and histories of allocation, deallocation, copies and container operations",
  "No test uses this allocator.",
  [SC + "bounded_contiguous_allocator.h", SC + "treap.h", SC + "binary_search_tree.h"],
  [("stack of free element pointers", SC + "bounded_contiguous_allocator.h")],
  "Non-trivial: the pool was exhausted or an element reused (a container was copied or swapped)." + TAIL),
P("C41", "Prefix trees and Aho-Corasick automata match naive string search",
  "After any history of add, append, find, erase, clear and copy, a prefix tree holds exactly the same set of words as a set of strings, with the documented 1-based numbering, letter count and ordered prefix enumeration, and copies are independent. An Aho-Corasick automaton counts every occurrence of every dictionary word in any text, and each state stands for the longest suffix that is a prefix of a word.",
  "histories of up to 25 operations; dictionaries with nested and repeated words; texts that contain them; alphabets of 2 to 256 letters",
  "The tests run one dictionary; suffix links and erasure depend on how the words nest.",
  [XC + "prefix_tree.h", XC + "aho_corasick_trie.h"],
  [("insertion, erasure and renumbering", XC + "prefix_tree.h"), ("suffix links and lazy transitions", XC + "aho_corasick_trie.h")],
  "Non-trivial: a tree with more than two words; more than two patterns and more than two matches." + TAIL),
P("C42", "Range minimum, suffix array and palindrome tree match their definitions",
  "Range minimum queries return the position of a minimum of every range, for every block size and order, also through copies. Suffix arrays list the suffixes in lexicographic order with exact longest common prefixes, and palindrome trees hold exactly the distinct palindromic substrings with exact numbers of occurrences.",
  "arrays, strings over alphabets of 1 to 5000 letters, periodic and extreme ones, all ranges",
  "The tests use a few fixed strings; SA-IS recursion and the sparse table branches depend on the structure of the input.",
  [XC + "range_minimum_query.h", XC + "suffix_array.h", XC + "palindrome_tree.h"],
  [("block trees and sparse table", XC + "range_minimum_query.h"), ("induced sorting, names, lcp", XC + "suffix_array.h"), ("suffix links of palindromes", XC + "palindrome_tree.h")],
  "Non-trivial: more than two blocks; a string with repeated substrings or at least two palindromes longer than one letter (per sub-property)." + TAIL),
P("C50", "Disjoint sets and graph editing follow their set models",
  "After every history of unite, find, count, add_count and growth, disjoint_set represents exactly the partition generated by the unions with the right sizes and number of sets. After every history of adding, deleting and contracting, a graph holds exactly the edges the set model prescribes, with the documented renaming of the last node.",
  "all histories of operations, including self loops and parallel edges",
  "The tests run one fixed history per method.",
  [SG + "disjoint_set.h", SG + "graph.h"],
  [("union by rank, path compression", SG + "disjoint_set.h"), ("delete_node / contract renaming", SG + "graph.h")],
  "Non-trivial: more than three merges and a repeated union; an edge deletion and a contraction." + TAIL),
P("C51", "Shortest paths and minimum spanning trees are optimal",
  "For every weighted graph without negative cycles (non-negative weights for dijkstra) and every source, the distances of dijkstra and floyd_warshall are the minimum over all paths, unreachable nodes are marked, and the predecessor or next pointers lead along a path of that length. prim_spanning_tree returns a spanning tree of the root's component of minimum weight whose parent edges exist.",
  "all directed and undirected graphs, weights (zero, negative where allowed), infinities and sources",
  "The tests use one graph per algorithm.",
  [EG + "dijkstra.h", EG + "floyd_warshall.h", EG + "prim_spanning_tree.h"],
  [("relaxation with set based queue", EG + "dijkstra.h"), ("triple loop and next pointers", EG + "floyd_warshall.h"), ("tree growth", EG + "prim_spanning_tree.h")],
  "Non-trivial: some shortest path has more than two edges; more than three nodes and a cycle for spanning trees." + TAIL),
P("C52", "Flows, matchings and assignments are optimal and consistent",
  "For every capacity matrix, source and sink, dinic_flow and push_relabel_flow (both rules) return the minimum cut capacity, and the flow they leave respects capacities and conservation. bipartite_matching returns a maximum matching made of given edges, and hungarian returns the minimum and maximum cost of a perfect assignment together with that assignment, without changing the costs, over repeated use.",
  "all capacity matrices (antiparallel, loops, zero, large), bipartite edge lists with duplicates, and cost matrices of any sign",
  "The tests use one network and one matrix each.",
  [EG + "dinic_flow.h", EG + "push_relabel_flow.h", EG + "bipartite_matching.h", EG + "hungarian.h"],
  [("residual capacities in both directions", EG + "dinic_flow.h"), ("discharge / relabel", EG + "push_relabel_flow.h"), ("slack updates and augmentation", EG + "hungarian.h")],
  "Non-trivial: positive flow with more than four nodes; more than two matched pairs; assignments of different cost exist." + TAIL),
P("C53", "Components, orders, closures and 2-SAT are exact",
  "tarjan_scc partitions the nodes of every directed graph into its strongly connected components in topological order; topological_sort orders every DAG; transitive_closure connects exactly the distinct pairs joined by a path and transitive_reduction of a DAG is its unique minimal equivalent graph. sat2 decides every 2-CNF formula, respects given values and returns a satisfying assignment when one exists.",
  "all directed graphs with loops and parallel edges, all DAGs, all formulas with single literals and partial assignments",
  "The tests use one or two graphs and formulas.",
  [EG + "tarjan_scc.h", EG + "topological_sort.h", EG + "transitive_closure.h", EG + "sat2.h"],
  [("low link updates", EG + "tarjan_scc.h"), ("implication graph and assignment order", EG + "sat2.h"), ("indirect reachability", EG + "transitive_closure.h")],
  "Non-trivial: a component of several nodes and more than two components; indirect paths; more clauses than variables." + TAIL),
P("C54", "Biconnectivity decomposition is exact",
  "For every simple undirected graph, the chain decomposition consists of edge-disjoint cycles and paths covering exactly the non-bridge edges, grouped by component and block; bridges, articulation points and biconnected components equal their definitions by removal; and the block-cut tree is a forest with one tree per component whose nodes, edges and node map are as documented.",
  "all simple undirected graphs, connected or not",
  "The tests use two graphs and depend on hash order (one is not stable).",
  [EG + "chain_decomposition.h", EG + "iterative_dfs.h"],
  [("block index of chains", EG + "chain_decomposition.h"), ("cut vertices from bridges and non-first blocks", EG + "chain_decomposition.h"), ("block_cut_tree", EG + "chain_decomposition.h")],
  "Non-trivial: at least one block and one articulation point." + TAIL),
P("C55", "Depth first traversal, LCA and heavy-light decomposition are exact",
  "iterative_dfs reports exactly the events of the recursive traversal for every graph, source and refusing visitor. For every tree or forest, lowest_common_ancestor answers depth, ancestor and distance by definition, and the heavy-light decomposition lays subtrees out contiguously, crosses O(log n) chains on any path, answers k-th ancestors and walks every path in order, leaving the graph's edges intact.",
  "all graphs, trees and forests, weighted or not, all pairs of nodes",
  "The tests use one tree.",
  [EG + "iterative_dfs.h", EG + "lowest_common_ancestor.h", EG + "heavy_light_decomposition.h"],
  [("visitor protocol", EG + "iterative_dfs.h"), ("levels and last occurrence indices", EG + "lowest_common_ancestor.h"), ("heavy child first layout, walk", EG + "heavy_light_decomposition.h")],
  "Non-trivial: more than eight events; an ancestor at depth two or more; a path crossing more than two chain segments." + TAIL),
P("C56", "Chromatic polynomials count proper colourings",
  "For every simple undirected graph and every number of colours k, the chromatic polynomial evaluated at k is the number of proper colourings; it is monic of degree n with second coefficient minus the number of edges, agrees modulo a prime with the integer one, and the closed forms for trees, cycles and complete graphs agree with it.",
  "all simple graphs (up to eight nodes) and numbers of colours",
  "The tests compare a few fixed graphs.",
  [EG + "chromatic_polynomial.h", EG + "chain_decomposition.h", SG + "graph.h"],
  [("blocks handled independently", EG + "chromatic_polynomial.h"), ("deletion/addition-contraction", EG + "chromatic_polynomial.h")],
  "Non-trivial: more than four nodes and at least one cycle." + TAIL),
P("C60", "Readers hand out exactly the bytes of their source whatever the buffering",
  "For every byte sequence, buffer size and chunking of the underlying source, every interleaving of reading characters, blocks, lines, words, numbers, raw buffer access, skipping and unreading through file, stream, string, buffered and simple readers yields exactly the bytes of the source in order, and the failure flag is raised exactly when a read ran past the end. Every well-formed number is read with its exact value and nothing beyond it is consumed.",
  "byte strings including zero and values above 0x7F; buffers from one byte; sources that deliver a few bytes per call; operation sequences",
  "The tests read one short text through a large buffer; refill boundaries are never crossed.",
  [IO + "reader.h"],
  [("refill, reserve and unread", IO + "reader.h"), ("number parsing", IO + "reader.h")],
  "Non-trivial: the text is longer than the buffer or several operations are performed (per sub-property)." + TAIL),
P("C61", "Writers deliver exactly the bytes written, and numbers as decimal text",
  "For every buffer size and sequence of writes, flushes and formatted writes, the underlying file, stream or string receives exactly the bytes written, in order, each flush delivering everything written before it. Integers are written exactly with the requested minimum number of digits; floating-point numbers are written correctly rounded to the requested precision, and what was written reads back as the same value.",
  "operation sequences over buffers from one byte; integers of all magnitudes including the smallest; floating-point numbers by magnitude and precision",
  "The tests write a few small numbers into a large buffer.",
  [IO + "writer.h", IO + "reader.h"],
  [("buffer flushes at the capacity", IO + "writer.h"), ("digit generation and rounding", IO + "writer.h")],
  "Non-trivial: more bytes than the buffer holds; a number of more than one digit (per sub-property)." + TAIL),
P("C62", "fast_read and fast_write are faithful at every buffer size",
  "For every file content and buffer size, every interleaving of fast_read operations yields exactly the bytes and numbers of the file, and its raw buffer is terminated for sscanf; every sequence of fast_write operations puts exactly the bytes written into the file. Numbers written are exact or correctly rounded and read back as the same value.",
  "files of generated bytes, buffers from one byte, operation sequences, numbers of all magnitudes",
  "The tests read and write one small file through a large buffer.",
  [IO + "fast_io.h"],
  [("refill and flush", IO + "fast_io.h"), ("number parsing and digit generation", IO + "fast_io.h")],
  "Non-trivial: more bytes than the buffer holds or several operations (per sub-property)." + TAIL),
P("C63", "Stream output is exact and its manipulators are scoped",
  "Every library value with an output operator (fractions, modulos, polynomials, vectors, matrices, triples, standard containers, geometric algebra elements, nested in each other) is written to a stream as the documented text. Manipulators select the representation for their scope or stream only and are restored afterwards, for every nesting of scopes.",
  "values nested in values, all combinations and nestings of manipulators",
  "The tests print one value per type.",
  [IO + "iostream_overloads.h", "src/io/iostream_overloads.cpp"],
  [("per-type output operators", IO + "iostream_overloads.h"), ("scoped and inline manipulators", IO + "iostream_overloads.h")],
  "Non-trivial: every case with a value of at least one component." + TAIL),
P("C64", "Stream tokens are the longest allowed runs and nothing else is consumed",
  "Extracting a token skips white space and takes the longest run of characters its predicate allows, leaving the next character in the stream. Token lists split a text into exactly the fields between the delimiters and number lists into exactly their values.",
  "texts mixing allowed characters, delimiters and white space, for every provided predicate and list",
  "The tests parse one line per list type.",
  [IO + "stream_tokenizer.h"],
  [("token extraction", IO + "stream_tokenizer.h"), ("character predicates", IO + "stream_tokenizer.h")],
  "Non-trivial: a token is extracted and text is left, or a list of at least two fields." + TAIL),
P("C70", "Parallel execution runs every job exactly once, synchronised and in parallel",
  "For every number of threads and every schedule, parallel_execute hands each job of the provider to exactly one worker and collects each result exactly once, with its job; it never calls the provider, the collector or the worker provider from two threads at a time, creates one worker per thread, and really runs jobs at the same time. range_job_provider cuts every range into consecutive pieces of the requested length, and LOCK runs its block once while holding the mutex and releases it.",
  "thread counts from 0 to 8, numbers of jobs, generated delays in every callback; ranges up to the limits of the type",
  "The tests run one schedule with well-behaved callbacks; a missing lock shows only when callbacks overlap.",
  ["include/altruct/concurrency/concurrency.h"],
  [("provider, collector and worker locks", "include/altruct/concurrency/concurrency.h"), ("range_job_provider", "include/altruct/concurrency/concurrency.h"), ("LOCK", "include/altruct/concurrency/concurrency.h")],
  "Non-trivial: more than one thread and more than one job; a range that does not divide evenly (per sub-property)." + TAIL, schedule=True, fuzz=False),
P("C71", "Elapsed time is the exact difference in seconds on any clock",
  "For every clock period, representation and pair of instants, since() returns the elapsed time in seconds within the rounding of a double. The cycle counter clock never runs backwards on a core and converts ticks to time by its nominal frequency.",
  "generated clocks with several periods and representations, instants over the whole range",
  "The tests measure one real delay.",
  ["include/altruct/chrono/chrono.h"],
  [("since", "include/altruct/chrono/chrono.h"), ("rdtsc_clock", "include/altruct/chrono/chrono.h")],
  "Non-trivial: a non-zero difference." + TAIL, fuzz=False),
]
NOT_APPLICABLE = []
import glob as _g, os as _o
for _f in sorted(_g.glob(_o.path.dirname(_o.path.abspath(__file__)) + "/harness/C??.cpp")):   # harnesses under construction
    _i = _o.path.basename(_f)[:3]
    if not any(p["id"] == _i for p in PROPS): PROPS.append(dict(id=_i, rule="draft", draft=True))

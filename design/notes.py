"""Per property: (oracle, what is generated and within which bounds, what is deliberately outside)."""
NOTES = {
"C01": ("bisection on 128-bit integers for roots; divisions computed in 128 bits; Euclid's algorithm written anew; repeated multiplication modulo 2^64 for powers. The Bezout identity and the bound on the coefficients are checked as relations, and the number of steps against a hand-run Euclid.",
        "all 8 integer types; values from the type limits, exact squares/cubes +-2, random bit lengths, uniform; the Newton versions over a ring without specialization (__int128)",
        "results that do not fit the return type (isqrt returns int32)"),
"C02": ("a loop over the bits of the value, one bit at a time",
        "random values of 4 widths; all 2^8 and 2^16 values exhaustively in every run; signed non-negative values; carry/overflow of the addition intrinsics against 128 bits",
        "signed negative arguments of shifts (undefined by the language of that time)"),
"C03": ("128-bit arithmetic followed by %, and schoolbook polynomial arithmetic (own code) for residues of polynomials",
        "8/16/32/64-bit signed and unsigned, run-time instance / static / constant moduli, moduli 1, smooth, prime, and within 100 of the type's maximum; operands 0..M-1; every aliasing form; construction from any integer of any of 14 type pairs; residues modulo polynomials over F_2, F_7, F_101, F_1000000007",
        "inverse of a non-unit modulo a polynomial; moduli <= 0"),
"C04": ("direct check of each congruence, brute-force search for small moduli, lcm in 128 bits, Jacobi through the factorization and Euler's criterion, all roots by exhaustive search",
        "pairs and lists with common factors, results that fill the type, any order of moduli; primes up to 2^31, prime powers, powers of two, composites; 32/64-bit",
        "sqrt_mod for types other than int (does not compile upstream)"),
"C05": ("orders by enumerating powers; element checks through the factorization of the group order; discrete logarithms verified by exponentiation and, where none exists, by enumerating the subgroup",
        "moduli 1..5000 exhaustively structured (cyclic and not), primes up to 2^31, smooth orders, prime powers, powers of two; bases of small order, targets outside of the subgroup",
        "moduli whose product overflows 64 bits in the documented implementation"),
"C06": ("trial division per entry; fresh tables per request order for the prime holder",
        "sizes 0..5000 with emphasis on 0, 1, 2, p, p^2 +-1; segments [b, e) up to 10^12; canary entries behind each array; random request orders; factorizations with up to 64-bit products; bases 2..1000",
        "tables bigger than 2^31"),
"C07": ("deterministic Miller-Rabin and trial division written here; a product of known primes is the source of numbers to factor; enumeration against a sieve and sort",
        "strong pseudoprimes, Carmichael numbers, squares and cubes of primes, products of two 31/32-bit primes, neighbours of 2^31, 2^32, 2^63, 2^64",
        "-"),
"C08": ("sieve of the range plus direct summation",
        "n up to 3*10^5 for whole tables of n/k, up to 10^7 for single values; every k; sums of powers modulo 2^64 and modulo primes; each memo shared and fresh",
        "n above 10^12 (cost)"),
"C09": ("the definition: double loop over d | n; divisor lists; sieved tables summed up",
        "random, multiplicative and completely multiplicative functions over modulo/int64/fraction; tables 0..400; sublinear sums up to 10^6; coefficients supplied or defaulted",
        "inverses where f(1) is not a unit"),
"C10": ("direct loops; 128-bit sums for large arguments",
        "all signs of a, b, c; n up to 2^63/a; powers up to 8 in several rings; block sums for random functions; iterators of vector/list/set; predicates on triangular, pentagonal etc. for all 64-bit arguments",
        "sums that overflow the documented type"),
"C11": ("recursive enumeration written here; Pascal's triangle; Legendre by loops; factorials multiplied out modulo p^k; Euler's pentagonal theorem is not used (partitions are counted by dynamic programming)",
        "n up to 12 for enumerations, 10^18 for exponents, p^k up to 10^6; rings int64, modulo, fraction; every argument both given and defaulted",
        "-"),
"C12": ("double loops over subsets/supersets/gcd/lcm/xor and over i + j; naive DFT for every size",
        "lengths 0..64 (naive) and 2^12 for round-trips; modular roots of unity for 4 primes, complex doubles with an error bound derived from the magnitude; in-place and out-of-place, aliased in/out",
        "inputs whose convolution exceeds 53 bits for the double precision variants"),
"C13": ("schoolbook multiplication/division on plain vectors; Horner evaluation; reconstruction q*b + r = a and deg r < deg b",
        "degrees 0..40 everywhere and up to 3000 for the multiplication switch-overs; degree sums of 60k..150k checked at random points of F_p (around 100000 and 2^17); each algorithm called directly for all shapes 0 <= l2 <= l1 <= lr <= l1 + l2, aliased; fields, integers, fractions, doubles; zeros checked by the residual of the polynomial, with a bound that grows with the condition of the root",
        "zeros of polynomials with clustered roots below the stated separation"),
"C14": ("truncated schoolbook arithmetic on plain vectors; defining identities for the functions (exp(ln f) = f, f(g(x)) = x, (f')...)",
        "lengths 1..20, coefficient fields F_p and fractions, static, instance and constant sizes, mixed lengths",
        "constant terms for which the function is undefined"),
"C15": ("triple loop product, Laplace expansion (n <= 5), rank by largest non-zero minor / own elimination over F_p, A * inv(A) = I",
        "sizes 0..6, rectangular, singular, duplicate rows, zero pivots; F_2, F_7, F_p, int64, fractions; powers 0..2^40 by own repeated squaring",
        "integer matrices whose entries overflow"),
"C16": ("stepping the recurrence; Fibonacci/Lucas through their definition incl. negative indices; Bernoulli by their defining sum over fractions",
        "orders 0..8, singular last coefficient, index to 10^18 compared modulo p with own matrix power; Berlekamp-Massey from 2L terms, minimality by rank of the Hankel matrix",
        "-"),
"C17": ("exact fractions in 128 bits; expansion by hand; brute-force search of best points for small bounds; Stern-Brocot walk",
        "all a/b up to 10^9, sqrt of every n up to 2^31, lines with both signs, digits in bases 2..36 with pre-period and period",
        "-"),
"C18": ("exhaustive search of small solutions; the equation itself in 128 bits; completeness against brute force up to a bound; counts through r2(n)",
        "D up to 2000 (fundamental), N both signs, all fixed angles, offsets; primes 1 mod 4 up to 2^62",
        "D that are squares outside of the documented branch"),
"C19": ("component formulas in 128 bits; fields over F_p^2 by own multiplication; nimber product by the mex definition (small) and by field laws (large); carry-less multiplication bit by bit; terms by evaluating both sides",
        "integer, modular and rational coefficients; run-time and static D; points at infinity; every pair of nimbers below 16 by definition",
        "ordering between different infinities beyond what the tests fix"),
"C20": ("a table-driven geometric product computed from basis blades (one sign rule), all other products as grade projections of it; rotations against rotation matrices",
        "every product for every ordered pair of the typed parts (k-vectors, rotors, motors, flectors ...), with integer-valued doubles so that results are exact; geometric constructions (join, meet, projections, distances) against vector algebra within 1e-9",
        "sandwich of versors without scalar norm; clifford3.h in nested namespaces with compilers that reject specializations there"),
"C21": ("vectors of images; roots by exhaustive search over all permutations of up to 7 lines and by construction from a known root for larger ones",
        "cycles given in any rotation/order, transpositions, identity, powers of both signs up to 2^40, exponents T >= 1",
        "cycle lists that are not disjoint"),
"C22": ("arithmetic on arrays of bytes modulo 2^n (own schoolbook multiplication, long division, shifts)",
        "16 to 512-bit nests over 8, 16, 32 and 64-bit words; all shift amounts; limits, powers of two +-1, single words; all aliasing forms",
        "division by zero; prim_int::negate (does not compile upstream)"),
"C23": ("linear scan for searches; naive matching for KMP",
        "monotone predicates with the switch anywhere incl. both ends, integer types at their limits, iterators, reals; periodic strings and patterns",
        "hi - lo beyond the type; empty patterns"),
"C24": ("the polynomial evaluated modulo each base/modulus in 128 bits; substring hash = hash of the substring built afresh",
        "strings with period and repeats (up to 1500 characters), all substrings, every base count, any 32-bit characters; pairwise distinct small tuples for hash_combine; collision counts against a threshold with a false-alarm probability below 1e-12",
        "adversarial collisions"),
"C25": ("std::vector/std::map loops", "all container kinds the helpers accept, empty and single-element inputs, duplicates", "-"),
"C26": ("an independent mt19937_64/mt19937 (std) and xorshift from the paper; integer ranges by exact counting of preimages for 8-bit generators",
        "all seeds and array seeds, any number of draws, every [lo, hi] incl. the whole type; rejection thresholds exhaustively for bytes",
        "statistical quality"),
"C27": ("a precedence climbing parser written here, evaluated directly",
        "random grammars (arity up to 16, precedence, associativity), parentheses hundreds deep and chains of hundreds of operators, random expressions with brackets, spaces, unary minus, functions",
        "malformed expressions; prefix operators declared left-associative"),
"C28": ("GMP's own C functions for GMP numbers, 128-bit integers for machine words",
        "numbers up to 2000 bits, both signs, limits of all machine types",
        "lcm<mpz> (ambiguous with a current gmpxx), '<<' of negative mpf"),
"C29": ("128-bit cross products; GMP rationals for long integers",
  "pairs of fractions with either sign, common factors, equal and reciprocal pairs, values at the bound where cross products still fit int, int64 and 128 bits; same object on both sides; telescoping sums and products of up to 200 terms; chains over integers of hundreds of bits; polynomials and matrices over fractions", "operands whose unreduced cross products overflow, zero denominators"),
"C30": ("a sorted std::vector with the duplicate mode's rule",
        "histories of up to 60 operations (insert, insert_before, erase by key/iterator/range, find, bounds, nth, position, copy, move, assignment, swap, iteration in both directions, retrace of the tree's invariants) for set/map and the three duplicate modes, keys from a range of 5 to 1000 so that collisions are common, occasionally 500 operations or a sorted run of 1500 keys; counts up to 5 per operation; comparators other than <; addresses and tags of the elements, so that copying instead of keeping an element shows; live instances counted to detect leaks",
        "iterators after their element was erased"),
"C31": ("as C30, plus the heap order of the priorities; for lazy_treap a vector with reversals",
        "as C30, with generated priorities (equal, increasing, random); treaps of up to 5000 keys inserted in sorted, reversed, alternating or strided order up to 20 times each and partially erased again: contents and O(log n) height", "lazy_treap range aggregates (do not compile upstream)"),
"C32": ("std::vector", "histories of insertion/erasure at both ends and in the middle, splits and joins, copies that must stay independent, iterator arithmetic and comparison; sizes to 300", "std::sort over rope iterators"),
"C34": ("parent pointers and walks to the root", "histories of link/cut/lca/root/parent/aggregate/update on up to 40 nodes; paths of 10^4 nodes", "links that would close a cycle"),
"C35": ("plain arrays and loops", "non-commutative combination (affine maps, strings), every size 0..40, rebuilds of subranges, lazy updates (add, assign, affine), searches; fenwick over groups in 1..3 dimensions incl. 2^63 values", "default-constructed segment_tree::rebuild"),
"C36": ("std::vector<int> of bits", "four word types, histories of set/flip/insert/erase/shift/rotate/and/or/xor of ranges at every misalignment, overlapping source and target, count/find/hash/compare", "-"),
"C37": ("a multiset of pairs, the comparator applied to every pair of elements", "histories of insert/pop/change-and-rebuild with three comparators (also on half of the element, so that equal elements differ), heaps of 0..300 elements, up to 400 operations; popped order, sort(), construction from ranges, vectors and sizes", "-"),
"C38": ("std::map", "limits from 1 to 2^40, keys on both sides of the square root, reset/resize/clear and copies", "lohi_map::at for a missing low key"),
"C40": ("a set of live blocks", "allocation/deallocation histories at capacity, copies, swaps, alignment, exhaustion must throw; std::list/map/set over the pool", "-"),
"C41": ("set of strings and naive matching", "alphabets of 1..4 letters, shared prefixes/suffixes, erase and re-insert, all match positions; 10^4-letter texts against naive counting", "empty patterns, inserting after build"),
"C42": ("min over the interval; sorted suffixes; naive palindrome enumeration", "all intervals of arrays to 64 (random + periodic + equal), strings over 1..5 letters, long periodic strings, LCP by comparison, counts of occurrences, erasing the last letter", "negative letters in suffix arrays"),
"C50": ("labels per element; adjacency lists in vectors", "histories of union/find/size/groups; node deletion, renumbering, transpose, edge filters", "-"),
"C51": ("Bellman-Ford on 64/128-bit numbers, all-pairs by repeated relaxation, Kruskal written here", "graphs to 12 nodes, occasionally to 60 or more, with parallel edges, self loops, zero and huge weights, unreachable parts, negative edges for Floyd (without negative cycles), infinity close to the limit", "negative cycles"),
"C52": ("minimum cut by enumerating all cuts; matching by exhaustive augmentation; assignments by permutations/bitmask DP", "up to 8 nodes fully decided, up to 40 nodes for agreement of the two flow algorithms, for symmetric relations and for assignments against successive augmenting paths; matchings up to 40+40; capacities 0..2^62; 64-bit and floating weights", "-"),
"C53": ("reachability by Floyd-Warshall over booleans; all 2^n assignments for 2-SAT; minimality of the reduction checked edge by edge", "digraphs to 14 nodes (occasionally 200) incl. self loops and parallel edges; acyclic graphs by random order; chains of cycles with up to 300000 nodes; 2-SAT with up to 9 variables against all assignments and up to 60 against reachability of the implication graph, both with preset values", "transitive reduction of cyclic graphs"),
"C54": ("remove each edge/node and count components", "simple graphs to 9 nodes, occasionally many more, connected or not, trees, cactuses, cliques; definition of the block-cut tree checked as a partition of the edges", "multigraphs"),
"C55": ("recursive DFS, walking up parents", "forests to 40 nodes, paths/brooms/caterpillars to 300000 nodes, every start, LCA of all pairs, chains contiguous and at most log2(n)+1 of them on each way to the root", "heavy_light_decomposition_ex::parent(int) (ambiguous overload upstream)"),
"C56": ("counting all k^n colourings; closed forms for paths, cycles, cliques, trees", "graphs to 6 nodes, k up to 5, rings int64/modulo/moduloX (whose unit carries the modulus); given and defaulted units", "-"),
"C60": ("a std::string and a position", "sources that return short reads, end of file at any byte, buffers of 1..64 bytes, interleavings of read/peek/skip/refill/reserve; strings, FILE*, streams; numbers at the type limits between separators", "malformed numbers"),
"C61": ("a std::string", "buffers of 1..64, sinks that accept fewer bytes or fail, flushes, moves, destructors; integers of all types, reals with 0..17 digits against an exact decimal expansion", "NaN and infinity"),
"C62": ("a std::string model of the file and printf/strtod", "temporary files in a scratch directory, buffer boundaries at every offset, fast_io primitives of every type, round trips", "malformed numbers"),
"C63": ("text built here from the components", "values of all streamable types, nested, with and without manipulators, scoped restoration of the format; sparse polynomials of hundreds of terms", "-"),
"C64": ("a hand-written splitter", "delimiters, custom predicates, empty tokens, end of stream, lists of numbers at the limits, tokens and lists of thousands of characters", "malformed input, trailing delimiters"),
"C70": ("counters per job, vectors of visited ranges, sequential sums", "threads 1..8, jobs 0..200 with generated delays/yields in every callback (the schedule is randomised, not enumerated); 64-bit ranges close to the limit; overlap is demanded through a barrier job that needs two workers", "exhaustive interleavings; LOCK left by break"),
"C71": ("exact arithmetic on generated clock readings", "clocks with periods from 1 ns to 1 h, any pair of readings; cycle clock with one core pinned (rdtsc), monotone and consistent with the frequency handed in", "real-time accuracy"),
}

// C07: primality and factorization of large integers; enumeration from primes; joint reduction.
#include "altruct/algorithm/math/factorization.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

// strong pseudoprimes to several bases, Carmichael numbers, squares of primes, products of close primes
static const std::vector<u64> HARD = { 2047, 1373653, 25326001, 3215031751ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3825123056546413051ull,
    9080191, 4759123141ull, 1122004669633ull, 561, 1105, 1729, 6601, 8911, 10585, 41041, 825265, 321197185, 5394826801ull, 232250619601ull, 9746347772161ull,
    1436697831295441ull, 60977817398996785ull, 7156857700403137441ull, 1194649, 12327121, 18446744073709551557ull, 18446744073709551533ull, 9223372036854775783ull,
    4295098369ull, 4294967291ull * 4294967279ull, 3037000493ull * 3037000493ull, 2147483647, 4294967291ull, 4294967297ull, 3186657ull, 5173601ull, 1050535501ull, 350269456337ull, 55245642489451ull, 7999252175582851ull, 585226005592931977ull };
static u64 gen_n(Ctx& c, u64 hi) {
    u64 n;
    switch (c.below(6)) {
    case 0: n = c.pick(HARD); break;
    case 1: n = ref::next_prime(c.uinteger(2, hi / 2)); break;
    case 2: { u64 p = ref::next_prime(c.uinteger(2, (u64)ref::isqrt(hi) / 2 + 2)), q = c.coin() ? p : ref::next_prime(c.uinteger(2, (u64)ref::isqrt(hi) / 2 + 2)); n = p * q; break; }
    case 3: { n = 1; for (int k = (int)c.range(1, 20); k-- > 0;) { u64 p = c.chance(1, 6) ? ref::next_prime(c.uinteger(2, 1 << 20)) : c.pick<u64>({ 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 97, 101, 127, 131, 251, 257, 1009 }); if ((u128)n * p <= hi) n *= p; } break; }
    case 4: n = c.uinteger(0, std::min<u64>(hi, 10000)); break;
    default: n = c.uinteger(0, hi);
    }
    return n > hi ? n % hi : n;
}
template<typename T> static void primality(Ctx& c, u64 hi) {
    u64 n = gen_n(c, hi); SHOW(n); SHOW(sizeof(T)); bool p = ref::is_prime(n); c.label("prime", p); c.nontrivial(n > 100 && n % 2);
    CHECK_EQ(miller_rabin<T>((T)n), p);
    // an explicit base never rejects a prime
    if (p) { T bases[] = { (T)c.uinteger(2, std::min<u64>(hi, 1000000)), 0 }; CHECK_EQ((miller_rabin<T>((T)n, bases)), true); }
}
PROP(primality_exact, 190000, 4750000) {
    switch (c.below(4)) {
    case 0: primality<int>(c, INT32_MAX); break; case 1: primality<uint32_t>(c, UINT32_MAX); break;
    case 2: primality<i64>(c, INT64_MAX); break; case 3: primality<u64>(c, UINT64_MAX); break;
    }
}
template<typename T> static void factors(Ctx& c, u64 hi) {
    u64 n = gen_n(c, hi); SHOW(n); SHOW(sizeof(T));
    auto vf = factor_integer<T>((T)n);
    std::sort(vf.begin(), vf.end()); c.nontrivial(vf.size() > 1 || (vf.size() == 1 && vf[0].second > 1));
    if (n < 2) { CHECK(vf.empty()); return; }
    u128 r = 1; u64 last = 0;
    for (auto& f : vf) { CHECK_MSG(ref::is_prime((u64)f.first), "factor " << (u64)f.first << " is not prime"); CHECK_MSG(f.second >= 1 && (u64)f.first > last, "repeated factor " << (u64)f.first); last = (u64)f.first; for (int i = 0; i < f.second; i++) r *= (u64)f.first; }
    CHECK_MSG(r == n, "the product of the factors is " << pbt::show(r));
    CHECK_EQ((u64)from_factorization(vf), n);
    c.label("prime power", vf.size() == 1 && vf[0].second > 1);
}
PROP(factorization_complete, 7000, 175000) {
    switch (c.below(4)) {
    case 0: factors<int>(c, INT32_MAX); break; case 1: factors<uint32_t>(c, UINT32_MAX); break;
    case 2: factors<i64>(c, c.coin() ? 1000000000000ll : INT64_MAX); break; case 3: factors<u64>(c, c.coin() ? 1000000000000ull : UINT64_MAX); break;
    }
}
PROP(factorization_small_exhaustive, 21000, 525000) {
    int blk = (int)c.range(0, 999); SHOW(blk); c.nontrivial();
    for (int n = blk * 50; n < blk * 50 + 50; n++) {
        auto vf = factor_integer<i64>(n); std::sort(vf.begin(), vf.end()); std::vector<std::pair<i64, int>> e; if (n > 1) for (auto& f : ref::factor(n)) e.push_back({ (i64)f.first, f.second });
        CHECK_MSG(vf == e, "n=" << n << " gave " << pbt::show(vf));
        auto vs = factor_integer_slow<int>(n); std::vector<std::pair<int, int>> es; for (auto& f : e) es.push_back({ (int)f.first, f.second }); CHECK_MSG(vs == es, "slow, n=" << n);
        CHECK_EQ(miller_rabin<int>(n), ref::is_prime(n));
    }
}
PROP(pollard_rho_divides, 20000, 500000) {
    u64 n = gen_n(c, c.coin() ? 1000000 : 1000000000000000ull); SHOW(n); c.assume(n > 3 && !ref::is_prime(n)); c.nontrivial();
    i64 d = pollard_rho<i64>((i64)n, c.range(2, 20), c.range(1, 20)); CHECK_MSG(d >= 2 && n % d == 0, "d=" << d);
    d = pollard_rho_repeated<i64>((i64)n); CHECK_MSG(d >= 2 && n % d == 0, "d=" << d); c.label("nontrivial factor found", d < (i64)n);
}
PROP(factor_out_rule, 5700000, 142500000) {
    i64 n = c.integer(1, 1ll << 40); i64 p = c.pick<i64>({ 2, 3, 4, 5, 6, 7, 10, 12 }); if (c.coin()) for (int k = (int)c.range(0, 6); k-- > 0;) n *= p; SHOW(n); SHOW(p);
    if (n <= 0) throw pbt::Discard();
    int e = 0; i64 r = factor_out(n, p, e); c.nontrivial(e > 0); CHECK(r % p != 0); i64 q = r; for (int i = 0; i < e; i++) q *= p; CHECK_EQ(q, n);
}
PROP(from_primes_enumerates, 98000, 2450000) {
    std::vector<int> all{ 2, 3, 5, 7, 11, 13, 17, 19, 23 }, vp; for (int p : all) if (c.coin()) vp.push_back(p); i64 mx = c.integer(1, 3000);
    auto perm = c.permutation((int)vp.size()); std::vector<int> sh; for (int i : perm) sh.push_back(vp[i]);
    SHOW(sh); SHOW(mx); c.nontrivial(vp.size() > 1 && mx > 10);
    std::multiset<i64> got; std::vector<i64> exp;
    from_primes<i64, int>(sh, mx, [&](const std::vector<std::pair<int, int>>& vf, i64 n) { i64 r = 1; for (auto& f : vf) for (int i = 0; i < f.second; i++) r *= f.first; if (r != n) throw pbt::Fail{ "factorization of " + std::to_string(n) + " passed to the visitor is wrong" }; got.insert(n); });
    for (i64 n = 1; n <= mx; n++) { i64 t = n; for (int p : vp) while (t % p == 0) t /= p; if (t == 1) exp.push_back(n); }
    CHECK_EQ(std::vector<i64>(got.begin(), got.end()), exp);
}
PROP(fraction_reduce_joint, 2600000, 65000000) {
    std::vector<i64> a((size_t)c.range(0, 5)), b((size_t)c.range(0, 5)); for (auto& x : a) x = c.range(1, 60); for (auto& x : b) x = c.range(1, 60);
    SHOW(a); SHOW(b); auto n = a, d = b; u128 N = 1, D = 1, N2 = 1, D2 = 1; for (i64 x : a) N *= x; for (i64 x : b) D *= x;
    fraction_reduce(n, d, [](i64 x, i64 y) { return (i64)ref::gcd(x, y); });
    for (i64 x : n) { CHECK(x > 0); N2 *= x; } for (i64 x : d) { CHECK(x > 0); D2 *= x; }
    c.nontrivial(N2 != N); CHECK_MSG(N * D2 == N2 * D, "the value changed"); CHECK_EQ(n.size(), a.size()); CHECK_EQ(d.size(), b.size());
    for (i64 x : n) for (i64 y : d) CHECK_MSG(ref::gcd(x, y) == 1, "not reduced: " << x << " and " << y);
}

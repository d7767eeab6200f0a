// C08: prime counting, prime power sums and Mertens function at n/k.
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/container/lohi_map.h"
#include <unordered_map>
#include "tables.h"
#include <cmath>
using namespace altruct::math; using namespace altruct::container;
typedef int64_t i64; typedef uint64_t u64;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> mod; typedef moduloX<i64> modx;

static i64 gen_n(Ctx& c, i64 hi) {
    switch (c.below(5)) {
    case 0: return c.range(1, 40);
    case 1: { i64 r = c.range(1, (i64)ref::isqrt(hi)); return std::max<i64>(1, std::min<i64>(hi, r * r + c.range(-2, 2))); }
    case 2: { i64 r = c.range(1, (i64)ref::icbrt(hi)); return std::max<i64>(1, std::min<i64>(hi, r * r * r + c.range(-2, 2))); }
    case 3: { i64 p = ref::T().primes[c.below(2000)]; return std::max<i64>(1, std::min<i64>(hi, c.coin() ? p : p * p - c.range(0, 2))); }
    default: return c.range(1, hi);
    }
}
template<typename F> static void each_key(i64 n, F f) { for (i64 k = 1; k <= n; k = n / (n / k) + 1) f(n / k); }

template<typename I> static void counts(Ctx& c, i64 n) {
    const auto& t = ref::T();
    auto s = prime_pi_sqrt<I>((I)n); each_key(n, [&](i64 k) { CHECK_MSG((i64)s[(I)k] == t.pi[k], "prime_pi_sqrt at " << k << " of " << n << ": " << s[(I)k]); });
    CHECK_EQ((i64)prime_pi<I>((I)n), (i64)t.pi[n]);
    auto v = prime_pi13_sqrt<I>((I)n); CHECK_EQ(v.size(), 2u); each_key(n, [&](i64 k) { CHECK_MSG((i64)v[0][(I)k] == t.pi1[k] && (i64)v[1][(I)k] == t.pi3[k], "prime_pi13_sqrt at " << k << " of " << n << ": " << v[0][(I)k] << ", " << v[1][(I)k]); });
    CHECK_EQ((i64)prime_pi1<I>((I)n), (i64)t.pi1[n]); CHECK_EQ((i64)prime_pi3<I>((I)n), (i64)t.pi3[n]);
}
PROP(prime_counts, 32000, 800000) {
    i64 n = gen_n(c, c.chance(1, 10) ? 1000000 : 20000); SHOW(n); c.nontrivial(n > 10);
    switch (c.below(3)) { case 0: counts<int>(c, n); break; case 1: counts<i64>(c, n); break; case 2: counts<u64>(c, n); break; }
    CHECK_EQ(prime_pi<i64>(0), 0); CHECK_EQ(prime_pi1<i64>(0), 0); CHECK_EQ(prime_pi3<int>(0), 0);
}
PROP(prime_power_sums, 16000, 400000) {
    i64 n = gen_n(c, c.chance(1, 10) ? 300000 : 5000); int z = (int)c.range(0, 8); i64 M = c.pick<i64>({ 1000000007, 998244353, 1000003, 65537 }); SHOW(n); SHOW(z); SHOW(M); c.nontrivial(n > 10 && z > 0);
    const auto& t = ref::T(); std::vector<u64> e(n + 1, 0), e2(n + 1, 0); for (i64 i = 1; i <= n; i++) { bool pr = i > 1 && t.spf[i] == i; e[i] = (e[i - 1] + (pr ? ref::powmod(i, z, M) : 0)) % M; e2[i] = (e2[i - 1] + (pr ? ref::powmod(i, z, 1000000007) : 0)) % 1000000007; }
    if (n < M) { auto s = prime_power_sum_sqrt<modx, i64>(z, n, modx(1, M)); each_key(n, [&](i64 k) { CHECK_MSG(s[k].v == (i64)e[k] && s[k].M() == M, "at " << k << ": " << s[k].v << " expected " << e[k]); }); }
    auto s = prime_power_sum_sqrt<mod, int>(z, (int)n, mod(1)); each_key(n, [&](i64 k) { CHECK_MSG(s[k].v == (int)e2[k], "at " << k << ": " << s[k].v << " expected " << e2[k]); });
    auto ps = prime_sum_sqrt<i64, i64>(n, 1); each_key(n, [&](i64 k) { CHECK_MSG(ps[k] == t.psum[k], "prime_sum_sqrt at " << k << ": " << ps[k]); });
    CHECK_EQ(prime_sum<i64, i64>(n, 1), t.psum[n]); CHECK_EQ(prime_sum<i64, i64>(0, 1), 0);
    CHECK_EQ(prime_sum<modx, i64>(n, modx(1, 1009)).v, t.psum[n] % 1009);
}
PROP(prime_pi_meissel_lehmer, 96000, 2400000) {
    static std::vector<int> pi; if (pi.empty()) pi = ref::T().pi; const auto& p = ref::T().primes; i64 m = gen_n(c, 1000000) - c.range(0, 1); SHOW(m); int ps = (int)c.pick<int>({ 0, 2, 1000 }); c.nontrivial(m > 10);
    if (c.chance(1, 400)) { i64 big = c.range(1000000, 100000000); c.show("big", big); CHECK_EQ(prime_pi_deprecated<i64, int>(big, pi.data(), p.data(), ps), prime_pi<i64>(big)); }
    CHECK_EQ(prime_pi_deprecated<i64, int>(m, pi.data(), p.data(), ps), (i64)pi[m]);
}
PROP(mertens_sieves, 57000, 1425000) {
    int n = (int)c.integer(1, c.chance(1, 10) ? 20000 : 1000); int pad = (int)c.range(0, 1); auto pa = ref::primes_upto(n - 1 + pad); SHOW(n); c.nontrivial(n > 10); const auto& t = ref::T();
    std::vector<i64> M(n), M1(n), M0(n), E(n), O(n); auto e = E, o = O; for (int i = 1; i < n; i++) { e[i] = e[i - 1] + (i % 2 == 0 ? t.mu[i] : 0); o[i] = o[i - 1] + (i % 2 ? t.mu[i] : 0); }
    if (n < 2) return;
    sieve_mertens<i64>(M, n, pa.data(), (int)pa.size()); sieve_mertens_odd<i64>(M1, n, pa.data(), (int)pa.size()); sieve_mertens_even<i64>(M0, n); sieve_mertens_even_odd<i64>(E, O, n, pa.data(), (int)pa.size());
    CHECK_EQ(M, std::vector<i64>(t.mertens.begin(), t.mertens.begin() + n)); CHECK_EQ(M1, o); CHECK_EQ(M0, e); CHECK_EQ(E, e); CHECK_EQ(O, o);
}
template<typename T, typename F> static void memo(Ctx& c, i64 n, T id, F val) {
    const auto& t = ref::T(); std::vector<i64> e(n + 1), o(n + 1); for (i64 i = 1; i <= n; i++) { e[i] = e[i - 1] + (i % 2 == 0 ? t.mu[i] : 0); o[i] = o[i - 1] + (i % 2 ? t.mu[i] : 0); }
    auto chk = [&](T got, i64 want, const char* what) { CHECK_MSG(val(got) == val(castOf(id, want)), what << "(" << n << ") = " << val(got) << ", expected " << want); };
    int kind = (int)c.below(3); int U = (int)c.range(0, std::min<i64>(n, 60));
    auto run = [&](auto mk, auto pre) {
        { auto tb = mk(); if (pre) for (int i = 1; i <= U; i++) tb[i] = castOf(id, t.mertens[i]); chk(mertens<T>(n, tb, id), t.mertens[n], "mertens"); }
        { auto tb = mk(); if (pre) for (int i = 1; i <= U; i++) tb[i] = castOf(id, o[i]); chk(mertens_odd<T>(n, tb, id), o[n], "mertens_odd"); }
        if (std::is_same<T, i64>::value) { auto tb = mk(), t1 = mk(), t0 = mk(); chk(castOf(id, mertens<T>(n, tb)), t.mertens[n], "mertens with the default unit"); chk(mertens_odd<T>(n, t1), o[n], "mertens_odd with the default unit"); chk(mertens_even<T>(n, t0), e[n], "mertens_even with the default unit"); }
        { auto tb = mk(); if (pre) for (int i = 1; i <= U; i++) tb[i] = castOf(id, e[i]); chk(mertens_even<T>(n, tb, id), e[n], "mertens_even"); }
    };
    bool pre = c.coin();
    if (kind == 0) run([&] { return std::unordered_map<i64, T>(); }, pre);
    else if (kind == 1) { if ((i64)ref::isqrt(n) > U) U = (int)ref::isqrt(n); run([&] { return sqrt_map<i64, T>(std::max<i64>(U, ref::isqrt(n)), n); }, pre); }
    else run([&] { return lohi_map<i64, T>(std::max(U, 1)); }, pre);
}
PROP(mertens_memoized, 39000, 975000) {
    i64 n = gen_n(c, c.chance(1, 10) ? 100000 : 3000); SHOW(n); c.nontrivial(n > 10);
    if (c.coin()) memo<i64>(c, n, 1, [](i64 x) { return x; }); else { i64 M = c.pick<i64>({ 1000000007, 101 }); memo<modx>(c, n, modx(1, M), [](modx x) { return x.v; }); }
}
PROP(mertens_from_prime_pi, 7300, 182500) {
    i64 n = gen_n(c, c.chance(1, 10) ? 1000000 : 30000); bool extra = c.coin(); int r = (int)ref::isqrt(n); if (extra) r = std::max(r, (int)std::sqrt(n * std::log((double)n))); auto pa = ref::primes_upto(c.coin() ? r : (int)ref::isqrt(n)); const auto& t = ref::T(); SHOW(n); SHOW(extra); c.nontrivial(n > 10);
    std::vector<i64> e(n + 1), o(n + 1); for (i64 i = 1; i <= n; i++) { e[i] = e[i - 1] + (i % 2 == 0 ? t.mu[i] : 0); o[i] = o[i - 1] + (i % 2 ? t.mu[i] : 0); }
    auto pi = prime_pi_sqrt<i64>(n);
    auto M = mertens<i64>(n, pi, pa.data(), (int)pa.size()); each_key(n, [&](i64 k) { CHECK_MSG(M[k] == t.mertens[k], "mertens at " << k << ": " << M[k]); });
    auto M1 = mertens_odd<i64>(n, pi, pa.data(), (int)pa.size()); each_key(n, [&](i64 k) { CHECK_MSG(M1[k] == o[k], "mertens_odd at " << k << ": " << M1[k]); });
    auto M0 = mertens_even<modx>(n, pi, pa.data(), (int)pa.size(), modx(1, 1000003)); each_key(n, [&](i64 k) { CHECK_MSG(M0[k].v == modx(e[k], 1000003).v, "mertens_even at " << k << ": " << M0[k].v); });
    auto Z = mertens_even<i64>(n, pi, pa.data(), (int)pa.size()); each_key(n, [&](i64 k) { CHECK_MSG(Z[k] == e[k], "mertens_even with the default unit at " << k << ": " << Z[k]); });
}

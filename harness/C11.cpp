// C11: combinatorial enumeration, counting numbers, prime exponents, factorials and binomials modulo prime powers.
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "tables.h"
#include <set>
#include <list>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef moduloX<int> modx;
template<typename M> struct Mk { M id; M operator()(i64 v) const { return castOf(id, v); } };
template<typename F> static void with_ring(Ctx& c, F body) {
    if (c.coin()) body(Mk<modc>{ modc(1) }, (i64)1000000007); else { int P = c.pick<int>({ 1000000007, 998244353, 10007, 101 }); c.show("modulus", P); body(Mk<modx>{ modx(1, P) }, (i64)P); }
}
PROP(next_combination_enumerates, 130000, 3250000) {
    int n = (int)c.range(0, 8), k = (int)c.range(0, n), sp = (int)c.range(1, 9); std::vector<int> v(n); bool rep = c.chance(1, 3); for (int i = 0; i < n; i++) v[i] = rep ? (int)c.range(0, sp) : (i ? v[i - 1] : -3) + (int)c.range(1, sp); std::sort(v.begin(), v.end()); SHOW(v); SHOW(k); c.nontrivial(n > 3 && k > 0 && k < n); c.label("repeated elements", rep);
    // all the sorted k-element selections (distinct as multisets), in lexicographic order
    std::set<std::vector<int>> want; for (int m = 0; m < 1 << n; m++) if (__builtin_popcount(m) == k) { std::vector<int> s; for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back(v[i]); want.insert(s); }
    auto w = v; std::vector<std::vector<int>> got; bool more = true; for (size_t i = 0; i < want.size(); i++) { CHECK_MSG(more, "stopped after " << i << " of " << want.size() << " combinations"); got.push_back({ w.begin(), w.begin() + k }); auto s = w; std::sort(s.begin(), s.end()); CHECK_EQ(s, v); if (!rep) CHECK_MSG(std::is_sorted(w.begin() + k, w.end()), "the rest is not sorted"); more = next_combination(w.begin(), w.begin() + k, w.end()); }
    CHECK_MSG(!more, "more than " << want.size() << " combinations"); CHECK_EQ(got, std::vector<std::vector<int>>(want.begin(), want.end())); CHECK_EQ(w, v);
    std::list<int> l(v.begin(), v.end()); (void)l;
}
static void parts(int n, int mx, int slots, std::vector<int>& cur, std::vector<std::vector<int>>& out, int len) {
    if (n == 0) { auto v = cur; v.resize(len, 0); out.push_back(v); return; } if (!slots) return;
    for (int k = std::min(n, mx); k >= 1; k--) { cur.push_back(k); parts(n - k, k, slots - 1, cur, out, len); cur.pop_back(); }
}
PROP(next_partition_enumerates, 44000, 1100000) {
    int n = (int)c.range(1, 18), len = (int)c.range(1, c.coin() ? n + 2 : 6); SHOW(n); SHOW(len); c.nontrivial(n > 3 && len > 1); std::vector<std::vector<int>> want; std::vector<int> cur; parts(n, n, len, cur, want, len);
    std::vector<int> v(len, 0); v[0] = n; auto v0 = v; bool more = true; for (size_t i = 0; i < want.size(); i++) { CHECK_MSG(more, "stopped after " << i << " of " << want.size() << " partitions"); CHECK_EQ(v, want[i]); more = next_partition(v.begin(), v.end()); } CHECK(!more); CHECK_EQ(v, v0);
    auto p = partitions_p<modx>(n + 1, modx(1, 10007)); if (len >= n) CHECK_EQ((size_t)p[n].v, want.size() % 10007);
}
template<typename I> static void nth(Ctx& c, int maxd) {
    int d = (int)c.range(0, maxd); I o = c.coin() ? (I)c.range(0, 1000) : (I)c.uinteger(0, (u64)std::numeric_limits<I>::max()); std::vector<int> v(d); for (int i = 0; i < d; i++) v[i] = 10 * i; SHOW(d); c.show("o", o); c.nontrivial(d > 2 && o > 1); c.label("o beyond 12!", o >= (I)479001600);
    u64 x = (u64)o; std::vector<u64> dig(d); for (int i = 1; i <= d; i++) dig[d - i] = x % i, x /= i; auto rest = v; std::vector<int> want; for (int i = 0; i < d; i++) { want.push_back(rest[dig[i]]); rest.erase(rest.begin() + dig[i]); }
    nth_permutation(v.begin(), v.end(), o); CHECK_EQ(v, want);
}
PROP(nth_permutation, 710000, 17750000) { switch (c.below(4)) { case 0: nth<int>(c, 25); break; case 1: nth<i64>(c, 30); break; case 2: nth<unsigned>(c, 25); break; default: nth<u64>(c, 30); } }
static i64 fexp(i64 n, i64 p) { i64 e = 0; for (i64 q = n; q; q /= p) e += q / p; return e; }
PROP(prime_exponents_and_multinomials, 790000, 19750000) {
    i64 n = c.integer(0, 4000000000000000000), k = c.coin() ? c.range(0, std::min<i64>(n, 100)) : c.integer(0, n), p = c.pick<int>({ 2, 3, 5, 7, 11, 13, 101, 1009 }); SHOW(n); SHOW(k); SHOW(p); c.nontrivial(n > 10 && k > 0 && k < n);
    CHECK_EQ(factorial_prime_exponent<i64>(n, p), fexp(n, p)); i64 carries = 0; { i64 a = k, b = n - k, cr = 0; while (a || b) { cr = a % p + b % p + cr >= p; carries += cr; a /= p; b /= p; } } CHECK_EQ(binomial_prime_exponent<i64>(n, k, p), carries);
    int ni = (int)(n % 2000000000), ki = (int)std::min<i64>(k, ni); CHECK_EQ(factorial_prime_exponent<int>(ni, (int)p), (int)fexp(ni, p)); CHECK_EQ(binomial_prime_exponent<int>(ni, ki, (int)p), (int)(fexp(ni, p) - fexp(ki, p) - fexp(ni - ki, p)));
    std::vector<i64> ks(c.range(0, 5)); i64 s = 0, e = 0; for (auto& x : ks) x = c.integer(0, 500000000000000000), s += x, e += fexp(x, p); c.show("ks", ks); CHECK_EQ(multinomial_prime_exponent<i64>(ks, p), fexp(s, p) - e); CHECK_EQ(multinomial_prime_exponent<i64>(ks.begin(), ks.end(), p), fexp(s, p) - e);
    std::vector<int> sm(c.range(0, 5)); int t = 0; for (auto& x : sm) { x = (int)c.range(0, 6); while (t + x > 20) x--; t += x; } c.show("small", sm); i64 m = 1; { int q = 0; for (int x : sm) for (int i = 1; i <= x; i++) { q++; m = m * q / i; } }
    if (t <= 12) CHECK_EQ((multinomial<i64>(sm.begin(), sm.end())), m); CHECK_EQ((i64)(multinomial<modx>(sm, modx(1, 10007)).v), m % 10007); CHECK_EQ(multinomial(sm, 1.0), (double)m);
    std::vector<int> el; for (size_t i = 0; i < sm.size(); i++) el.insert(el.end(), sm[i], (int)i); CHECK_EQ((i64)(elements_multinomial<modx>(el.begin(), el.end(), modx(1, 10007)).v), m % 10007); if (t <= 12) CHECK_EQ((elements_multinomial<i64>(el)), m);
}
PROP(stirling_numbers, 67000, 1675000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; int n = (int)c.range(1, c.chance(1, 20) ? 60 : 14), k = (int)c.range(0, n + 2); c.show("n", n); c.show("k", k); c.nontrivial(n > 3 && k > 1 && k < n); int N = n + 4;
        typedef std::vector<std::vector<i64>> Tb; Tb s1(N, std::vector<i64>(N, 0)), s2 = s1; s1[0][0] = s2[0][0] = 1; for (int i = 1; i < N; i++) for (int j = 0; j <= i; j++) { i64 a = j ? s1[i - 1][j - 1] : 0, b = j ? s2[i - 1][j - 1] : 0; s1[i][j] = ref::mod((i128)a - (i128)(i - 1) * s1[i - 1][j], P); s2[i][j] = ref::mod((i128)b + (i128)j * s2[i - 1][j], P); }
        auto all = [&](const std::vector<std::vector<R>>& t, const Tb& s, const char* w) { CHECK_EQ((int)t.size(), n); for (int i = 0; i < n; i++) { CHECK_EQ((int)t[i].size(), std::min(i + 1, k)); for (int j = 0; j < (int)t[i].size(); j++) CHECK_MSG((i64)t[i][j].v == s[i][j], w << "(" << i << "," << j << ")"); } };
        all(stirling_s1_all<R>(n, k, mk(1)), s1, "stirling_s1_all"); all(stirling_s2_all<R>(n, k, mk(1)), s2, "stirling_s2_all");
        auto c1 = stirling_s1_all_n_for_k<R>(n, k, mk(1)); auto c2 = stirling_s2_all_n_for_k<R>(n, k, mk(1)); CHECK_EQ((int)c1.size(), n); CHECK_EQ((int)c2.size(), n); for (int i = 0; i < n; i++) { CHECK_MSG((i64)c1[i].v == s1[i][std::min(k, i + 1)], "stirling_s1_all_n_for_k at " << i << ": " << c1[i].v); CHECK_MSG((i64)c2[i].v == s2[i][std::min(k, i + 1)], "stirling_s2_all_n_for_k at " << i << ": " << c2[i].v); }
        int m = n - 1; auto r1 = stirling_s1_all_k_for_n<R>(m, mk(1)); auto r2 = stirling_s2_all_k_for_n<R>(m, mk(1)); CHECK_EQ((int)r1.size(), m + 1); CHECK_EQ((int)r2.size(), m + 1); for (int j = 0; j <= m; j++) { CHECK_MSG((i64)r1[j].v == s1[m][j], "stirling_s1_all_k_for_n(" << m << ") at " << j); CHECK_MSG((i64)r2[j].v == s2[m][j], "stirling_s2_all_k_for_n(" << m << ") at " << j); }
        CHECK_EQ((i64)(stirling_s1<R>(n, k, mk(1)).v), s1[n][k]); CHECK_EQ((i64)(stirling_s2<R, int>(n, k, mk(1)).v), s2[n][k]); CHECK_EQ((i64)(stirling_s2<R, int>(n, -1, mk(1)).v), 0);
        i64 f = 1; for (int i = 1; i <= n; i++) f = f * i % P; CHECK_EQ((i64)(factorial<R>(n, mk(1)).v), f);
    });
    { int n = (int)c.range(0, 15), k = (int)c.range(0, 16); auto a = stirling_s1_all<i64>(n, k), b = stirling_s2_all<i64>(n, k); for (int i = 1; i < n; i++) { i64 s = 0, t = 0, f = 1; for (int j = 0; j < (int)a[i].size(); j++) s += a[i][j] * (j % 2 ? -1 : 1); for (int j = 1; j <= i; j++) f *= j; if (k > i) { CHECK_EQ(s, i % 2 ? -f : f); for (auto x : b[i]) t += x; CHECK(t > 0); } } }
}
PROP(partition_numbers, 35000, 875000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; int n = (int)c.range(1, c.chance(1, 20) ? 300 : 40); c.show("n", n); c.nontrivial(n > 6); typedef std::vector<i64> V; V e(n, 0), p(n, 0), q(n, 0), o(n, 0); e[0] = p[0] = q[0] = o[0] = 1;
        for (int k = 1; k < n; k++) { for (int i = k; i < n; i++) p[i] = (p[i] + p[i - k]) % P; for (int i = n - 1; i >= k; i--) { q[i] = (q[i] + q[i - k]) % P; e[i] = (e[i] + P - e[i - k]) % P; if (k % 2) o[i] = (o[i] + o[i - k]) % P; } }
        auto vals = [](const std::vector<R>& v) { V r; for (auto& x : v) r.push_back(x.v); return r; };
        CHECK_EQ(vals(euler_function<R>(n, mk(1))), e); CHECK_EQ(vals(partitions_p_slow<R>(n, mk(1))), p); CHECK_EQ(vals(partitions_p_distinct_slow<R>(n, mk(1))), q); CHECK_EQ(vals(partitions_p<R>(n, mk(1))), p); CHECK_EQ(vals(partitions_p_distinct<R>(n, mk(1))), q); CHECK_EQ(vals(partitions_p_distinct_odd<R>(n, mk(1))), o);
        if (n < 300 && P > 1000000) { auto w = partitions_p_slow<i64>(n); for (int i = 0; i < n; i++) CHECK_EQ(w[i] % P, p[i]); }
    });
}
PROP(factorial_holder_tables, 60000, 1500000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; int n = (int)c.range(1, c.chance(1, 10) ? 101 : 25); c.show("n", n); c.nontrivial(n > 3); factorial_holder<R> h(n, mk(1)); CHECK_EQ(h.size(), n); std::vector<std::vector<i64>> b(n + 1, std::vector<i64>(n + 1, 0)); i64 f = 1;
        for (int i = 0; i < n; i++) { if (i) f = f * i % P; CHECK_EQ((i64)h.fact(i).v, f); CHECK_EQ((i64)ref::mulmod(h.ifact(i).v, f, P), 1); if (i) CHECK_EQ((i64)ref::mulmod(h.inv(i).v, i, P), 1); else CHECK_EQ((i64)h.inv(0).v, 0); b[i][0] = 1; for (int j = 1; j <= i; j++) b[i][j] = (b[i - 1][j - 1] + b[i - 1][j]) % P; for (int j = 0; j <= n; j++) CHECK_MSG((i64)h.bin(i, j).v == b[i][j], "bin(" << i << "," << j << ")"); }
        CHECK_EQ((int)h.fact().size(), n); CHECK_EQ((int)h.ifact().size(), n); CHECK_EQ((int)h.inv().size(), n); bool thrown = false; try { h.fact(n); } catch (const std::out_of_range&) { thrown = true; } CHECK(thrown);
    });
}
// n! without multiples of p modulo p^e by the period of p^e factors
struct PP { i64 p, m; int e; std::vector<i64> t; PP(i64 p, int e) : p(p), e(e) { m = (i64)ref::ipow(p, e); t.assign(m + 1, 1); for (i64 i = 1; i <= m; i++) t[i] = i % p ? (i64)ref::mulmod(t[i - 1], i, m) : t[i - 1]; if (m == 1) t[0] = 0; }
    i64 skipped(i64 n) const { return (i64)ref::mulmod(ref::powmod(t[m], n / m, m), t[n % m], m) % m; }
    i64 reduced(i64 n) const { i64 r = 1 % m; for (; n > 0; n /= p) r = (i64)ref::mulmod(r, skipped(n), m); return r; }
    i64 inv(i64 x) const { return (i64)ref::powmod(x, m / p * (p - 1) - 1, m); }
    i64 binom(i64 n, i64 k) const { i64 d = (i64)ref::mulmod(reduced(k), reduced(n - k), m); return (i64)ref::mulmod(reduced(n), inv(d), m); } };
static PP& pp(int p, int e) { static std::map<std::pair<int, int>, PP*> cache; auto& x = cache[{ p, e }]; if (!x) x = new PP(p, e); return *x; }
template<typename R, typename I> static void mod_pp(Ctx& c) {
    int p = c.pick<int>({ 2, 3, 5, 7, 11, 13, 37 }), mx = 1; while (ref::ipow(p, mx + 1) <= 6000) mx++; int e = (int)c.range(1, mx); PP& o = pp(p, e); I lim = std::numeric_limits<I>::max() / 2;
    I n = c.coin() ? (I)c.range(0, 60) : c.coin() ? (I)c.range(0, 3000) : (I)c.integer(0, lim), k = c.coin() ? (I)c.integer(0, n) : (I)c.range(0, std::min<i64>(n, 50)); if (c.chance(1, 6) && n > 10) { i64 q = (i64)ref::ipow(p, (int)c.range(1, 6)); n = (I)std::min<i64>(lim, n / q * q + c.range(0, 2)); k = std::min(k, n); }
    SHOW(p); SHOW(e); c.show("n", n); c.show("k", k); c.nontrivial(n > p && e > 1); c.label("p = 2", p == 2); c.label("n > 2^40", (i64)n > (1ll << 40));
    auto t1 = factorials_mod_pp_skipped<R>(p * e, p, e); auto t2 = factorials_mod_pp_skipped<R>((int)o.m, p, e); for (int i = 0; i <= (int)o.m; i++) CHECK_MSG((i64)t2[i] == o.t[i], "factorials_mod_pp_skipped at " << i);
    typedef std::pair<i64, i64> pr; auto S = [](std::pair<R, I> x) { return pr((i64)x.first, (i64)x.second); };
    pr sk(o.skipped(n), n / p), rd(o.reduced(n), fexp(n, p)), bn(o.binom(n, k), fexp(n, p) - fexp(k, p) - fexp(n - k, p));
    CHECK_EQ(S(factorial_mod_pp_skipped<R, I>(n, p, e, t1.data())), sk); CHECK_EQ(S(factorial_mod_pp_reduced<R, I>(n, p, e, t1.data())), rd); CHECK_EQ(S(factorial_mod_pp_reduced_2<R, I>(n, p, e, t2.data())), rd);
    CHECK_EQ(S(binomial_mod_pp_reduced<R, I>(n, k, p, e, t1.data())), bn); CHECK_EQ(S(binomial_mod_pp_reduced_2<R, I>(n, k, p, e, t2.data())), bn);
    if (n <= 3000) { CHECK_EQ(S(factorial_mod_pp_skipped_slow<R, I>(n, p, e)), sk); CHECK_EQ(S(factorial_mod_pp_reduced_slow<R, I>(n, p, e)), rd); } if (std::min<i64>(k, n - k) <= 2000) CHECK_EQ(S(binomial_mod_pp_reduced_slow<R, I>(n, k, p, e)), bn);
}
PROP(factorials_modulo_prime_powers, 36000, 900000) { switch (c.below(3)) { case 0: mod_pp<int, i64>(c); break; case 1: mod_pp<i64, i64>(c); break; default: mod_pp<int, int>(c); } }
template<typename R, typename I> static void big_pp(Ctx& c) { // prime powers far beyond the numbers, by multiplying everything out
    int p = c.pick<int>({ 2, 3, 5, 7, 11, 13, 37, 101, 1009, 31607 }), mx = 1; while (ref::ipow(p, mx + 1) <= (sizeof(R) > 4 && c.coin() ? 1000000000000000ull : 2000000000ull) && mx < 24) mx++; int e = (int)c.range(1, mx); if ((i64)p * e > 200000) e = 1; i64 m = (i64)ref::ipow(p, e); I n = (I)(c.coin() ? c.range(0, 300) : c.range(0, 12000)), k = (I)c.range(0, (i64)n); SHOW(p); SHOW(e); c.show("n", n); c.show("k", k); c.nontrivial(n > p && e > 1); c.label("modulus above 2^31", m >> 31);
    i64 sk = 1 % m; for (i64 i = 1; i <= (i64)n; i++) if (i % p) sk = (i64)ref::mulmod(sk, i % m, m); auto red = [&](i64 x) { i64 r = 1 % m; for (i64 i = 1; i <= x; i++) { i64 y = i; while (y % p == 0) y /= p; r = (i64)ref::mulmod(r, y % m, m); } return r; };
    i64 rn = red(n), d = (i64)ref::mulmod(red(k), red((i64)n - (i64)k), m); auto t = factorials_mod_pp_skipped<R>(p * e, p, e); auto f = factorial_mod_pp_skipped<R, I>(n, p, e, t.data()); CHECK_EQ((i64)f.first, sk); CHECK_EQ((i64)f.second, (i64)n / p); auto g = factorial_mod_pp_reduced<R, I>(n, p, e, t.data()); CHECK_EQ((i64)g.first, rn); CHECK_EQ((i64)g.second, fexp(n, p)); auto b = binomial_mod_pp_reduced<R, I>(n, k, p, e, t.data()); CHECK_EQ((i64)ref::mulmod(b.first, d, m), rn); CHECK((i64)b.first >= 0 && (i64)b.first < m); CHECK_EQ((i64)b.second, fexp(n, p) - fexp(k, p) - fexp((i64)n - (i64)k, p));
    if (n <= 2000) { auto h = factorial_mod_pp_reduced_slow<R, I>(n, p, e); CHECK_EQ((i64)h.first, rn); auto q = binomial_mod_pp_reduced_slow<R, I>(n, k, p, e); CHECK_EQ((i64)q.first, (i64)b.first); CHECK_EQ((i64)q.second, (i64)b.second); } }
PROP(large_prime_powers, 8900, 222500) { switch (c.below(3)) { case 0: big_pp<int, i64>(c); break; case 1: big_pp<i64, i64>(c); break; default: big_pp<int, int>(c); } }
// the documented default unit is T(1): calls without it equal calls with it
template<typename R, typename V> static void defaulted(Ctx& c, V val) {
    int n = (int)c.range(1, 20), k = (int)c.range(0, n); SHOW(n); SHOW(k); c.nontrivial(n > 3 && k > 1); R id(1);
    auto vec = [&](const std::vector<R>& a) { std::vector<i64> r; for (auto& x : a) r.push_back(val(x)); return r; };
    auto vv = [&](const std::vector<std::vector<R>>& a) { std::vector<std::vector<i64>> r; for (auto& x : a) r.push_back(vec(x)); return r; };
    CHECK_EQ(val(factorial<R>(n)), val(factorial<R>(n, id)));
    CHECK_EQ(vv(stirling_s1_all<R>(n, k)), vv(stirling_s1_all<R>(n, k, id))); CHECK_EQ(vv(stirling_s2_all<R>(n, k)), vv(stirling_s2_all<R>(n, k, id)));
    CHECK_EQ(vec(stirling_s1_all_n_for_k<R>(n, k)), vec(stirling_s1_all_n_for_k<R>(n, k, id))); CHECK_EQ(vec(stirling_s2_all_n_for_k<R>(n, k)), vec(stirling_s2_all_n_for_k<R>(n, k, id)));
    CHECK_EQ(vec(stirling_s1_all_k_for_n<R>(n)), vec(stirling_s1_all_k_for_n<R>(n, id))); CHECK_EQ(vec(stirling_s2_all_k_for_n<R>(n)), vec(stirling_s2_all_k_for_n<R>(n, id)));
    CHECK_EQ(val(stirling_s1<R>(n, k)), val(stirling_s1<R>(n, k, id))); if (n <= 12) CHECK_EQ(val(stirling_s2<R>(n, k)), val(stirling_s2<R>(n, k, id)));
    CHECK_EQ(vec(euler_function<R>(n)), vec(euler_function<R>(n, id))); CHECK_EQ(vec(partitions_p_slow<R>(n)), vec(partitions_p_slow<R>(n, id))); CHECK_EQ(vec(partitions_p_distinct_slow<R>(n)), vec(partitions_p_distinct_slow<R>(n, id)));
    CHECK_EQ(vec(partitions_p<R>(n)), vec(partitions_p<R>(n, id))); CHECK_EQ(vec(partitions_p_distinct<R>(n)), vec(partitions_p_distinct<R>(n, id))); CHECK_EQ(vec(partitions_p_distinct_odd<R>(n)), vec(partitions_p_distinct_odd<R>(n, id)));
    std::vector<int> ks{ k % 4, n % 5, (int)c.range(0, 4) }, el; for (int i = 0; i < 3; i++) el.insert(el.end(), ks[i], i); c.show("ks", ks);
    i64 m = val(multinomial<R>(ks, id)); CHECK_EQ(val(multinomial<R>(ks)), m); CHECK_EQ(val(multinomial<R>(ks.begin(), ks.end())), m); CHECK_EQ(val(multinomial<R>(ks.begin(), ks.end(), id)), m);
    CHECK_EQ(val(elements_multinomial<R>(el)), m); CHECK_EQ(val(elements_multinomial<R>(el.begin(), el.end())), m); CHECK_EQ(val(elements_multinomial<R>(el, id)), m);
}
PROP(default_unit, 13000, 325000) {
    if (c.coin()) defaulted<i64>(c, [](i64 x) { return x; }); else defaulted<modc>(c, [](const modc& x) { return (i64)x.v; });
    int p = c.pick<int>({ 2, 3, 5, 7 }), m = (int)c.range(0, 40); c.show("p", p); c.show("m", m); CHECK_EQ(factorials_mod_pp_skipped<int>(m, p), factorials_mod_pp_skipped<int>(m, p, 1));
    int n = (int)c.range(1, 20); factorial_holder<modc> h(n), g(n, modc(1)); for (int i = 0; i < n; i++) { CHECK_EQ(h.fact(i).v, g.fact(i).v); CHECK_EQ(h.ifact(i).v, g.ifact(i).v); CHECK_EQ(h.inv(i).v, g.inv(i).v); }
}

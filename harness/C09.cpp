// C09: Dirichlet convolutions and inverses, sieving and sublinear sums of arithmetic functions.
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/structure/math/modulo.h"
#include "tables.h"
#include <cmath>
#include <unordered_map>
using namespace altruct::math; using namespace altruct::container;
typedef int64_t i64; typedef uint64_t u64;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef moduloX<int> modx;

// arithmetic functions as tables mod P (index 0 unused)
typedef std::vector<i64> Tab;
static Tab conv(const Tab& a, const Tab& b, i64 P) { int n = (int)a.size(); Tab r(n, 0); for (int i = 1; i < n; i++) for (int j = 1; i * j < n; j++) r[i * j] = (r[i * j] + a[i] * b[j]) % P; return r; }
static Tab inverse(const Tab& a, i64 P) { int n = (int)a.size(); Tab r(n, 0); i64 ia = ref::powmod(a[1], P - 2, P); for (int k = 1; k < n; k++) { i64 s = k == 1; for (int d = 1; d < k; d++) if (k % d == 0) s = (s + (P - a[k / d]) * r[d]) % P; r[k] = s * ia % P; } return r; }
static i64 val(Ctx& c, i64 P) { return c.coin() ? (i64)c.range(0, 3) : c.range(0, P - 1); }
static Tab arbitrary(Ctx& c, int n, i64 P, bool unit1) { Tab r(n, 0); for (int i = 1; i < n; i++) r[i] = val(c, P); if (n > 1) { if (unit1) r[1] = 1; else if (r[1] == 0) r[1] = 1 + (i64)c.below(P - 1); } return r; }
// from values at prime powers
static Tab multiplicative(Ctx& c, int n, i64 P, bool completely) {
    Tab r(n, 0); if (n > 1) r[1] = 1; const auto& t = ref::T();
    for (int i = 2; i < n; i++) { int p = t.spf[i], q = p, m = i / p; while (m % p == 0) m /= p, q *= p; if (m > 1) r[i] = r[m] * r[q] % P; else if (completely && i != p) r[i] = r[p] * r[i / p] % P; else r[i] = val(c, P); }
    return r;
}
template<typename M> struct Mk { M id; M operator()(i64 v) const { return castOf(id, (int)v); } };
// runs body(maker, prime modulus) for one of the modular types
template<typename F> static void with_ring(Ctx& c, F body) {
    if (c.coin()) body(Mk<modc>{ modc(1) }, (i64)1000000007); else { int P = c.pick<int>({ 1000000007, 998244353, 10007, 101 }); c.show("modulus", P); body(Mk<modx>{ modx(1, P) }, (i64)P); }
}
#define TABLE_EQ(got, want, from, what) do { for (size_t ti = from; ti < (want).size(); ti++) CHECK_MSG((i64)(got)[ti].v == (want)[ti], what << " at " << ti << ": got " << (got)[ti].v << " expected " << (want)[ti]); } while (0)
template<typename M> static std::vector<M> table(const Mk<M>& mk, int n) { return std::vector<M>(n, mk(0)); }
static int gen_size(Ctx& c) { return c.chance(1, 20) ? (int)c.range(60, 300) : (int)c.range(2, 60); }

PROP(dirichlet_general, 180000, 4500000) {
    with_ring(c, [&](auto mk, i64 P) {
        int n = gen_size(c); auto f = arbitrary(c, n, P, false), g = arbitrary(c, n, P, false); c.show("f", f); c.show("g", g); c.nontrivial(n > 6 && g[1] != 1);
        auto F = [&](int i) { if (i < 1 || i >= n) throw pbt::Fail{ "f evaluated at " + std::to_string(i) }; return mk(f[i]); }; auto G = [&](int i) { if (i < 1 || i >= n) throw pbt::Fail{ "g evaluated at " + std::to_string(i) }; return mk(g[i]); };
        auto h = table(mk, n); dirichlet_convolution(h, F, G, n); auto e = conv(f, g, P); TABLE_EQ(h, e, 0, "convolution");
        auto d = table(mk, n); dirichlet_division(d, F, G, n); e = conv(f, inverse(g, P), P); TABLE_EQ(d, e, 1, "division");
        auto v = table(mk, n); dirichlet_inverse(v, G, n); e = inverse(g, P); TABLE_EQ(v, e, 1, "inverse");
        auto mt = table(mk, n); moebius_transform(mt, F, n); Tab mu(n); for (int i = 1; i < n; i++) mu[i] = (ref::T().mu[i] + P) % P; e = conv(f, mu, P); TABLE_EQ(mt, e, 1, "moebius_transform");
    });
}
PROP(dirichlet_multiplicative, 200000, 5000000) {
    with_ring(c, [&](auto mk, i64 P) {
        int n = gen_size(c); auto m = multiplicative(c, n, P, false), u = arbitrary(c, n, P, false), ui = inverse(u, P), f = conv(m, u, P); auto pa = ref::primes_upto(n - 1); auto fn = [&](const Tab& t) { return [&mk, &t](int i) { return mk(t.at(i)); }; };
        c.show("n", n); c.show("h", m); c.show("g", u); c.nontrivial(n > 6); c.label("g(1) is not 1", u[1] != 1);
        auto h = table(mk, n); dirichlet_convolution_multiplicative(h, fn(f), fn(ui), n, pa.data(), (int)pa.size()); TABLE_EQ(h, m, 1, "convolution");
        h = table(mk, n); dirichlet_division_multiplicative(h, fn(f), fn(u), n, pa.data(), (int)pa.size()); TABLE_EQ(h, m, 1, "division");
        auto mi = inverse(m, P); h = table(mk, n); dirichlet_inverse_multiplicative(h, fn(m), n, pa.data(), (int)pa.size()); TABLE_EQ(h, mi, 1, "inverse");
        Tab one(n, 1); auto sm = conv(m, one, P); h = table(mk, n); moebius_transform_multiplicative(h, fn(sm), n, pa.data(), (int)pa.size()); TABLE_EQ(h, m, 1, "moebius_transform");
        h = table(mk, n); for (int i = 1; i < n; i++) { int p = i > 1 ? ref::T().spf[i] : 1, q = i; while (p > 1 && q % p == 0) q /= p; h[i] = q == 1 ? mk(m[i]) : mk(1); } calc_multiplicative(h, n, pa.data(), (int)pa.size()); TABLE_EQ(h, m, 1, "calc_multiplicative");
    });
}
PROP(dirichlet_completely_multiplicative, 240000, 6000000) {
    with_ring(c, [&](auto mk, i64 P) {
        int n = gen_size(c); auto m = multiplicative(c, n, P, true), u = arbitrary(c, n, P, false), ui = inverse(u, P), f = conv(m, u, P); auto fn = [&](const Tab& t) { return [&mk, &t](int i) { return mk(t.at(i)); }; };
        std::vector<int> pf(n, 0); bool big = c.coin(); for (int i = 2; i < n; i++) pf[i] = big ? ref::T().lpf[i] : ref::T().spf[i];
        c.show("n", n); c.show("h", m); c.show("g", u); c.nontrivial(n > 6); c.label("g(1) is not 1", u[1] != 1);
        auto h = table(mk, n); dirichlet_convolution_completely_multiplicative(h, fn(f), fn(ui), n, pf.data()); TABLE_EQ(h, m, 1, "convolution");
        h = table(mk, n); dirichlet_division_completely_multiplicative(h, fn(f), fn(u), n, pf.data()); TABLE_EQ(h, m, 1, "division");
        auto mi = inverse(m, P); h = table(mk, n); dirichlet_inverse_completely_multiplicative(h, fn(mi), n, pf.data()); TABLE_EQ(h, m, 1, "inverse");
        Tab one(n, 1); auto sm = conv(m, one, P); h = table(mk, n); moebius_transform_completely_multiplicative(h, fn(sm), n, pf.data()); TABLE_EQ(h, m, 1, "moebius_transform");
        h = table(mk, n); for (int i = 1; i < n; i++) h[i] = i > 1 && ref::T().spf[i] == i ? mk(m[i]) : mk(1); calc_completely_multiplicative(h, n, pf.data()); TABLE_EQ(h, m, 1, "calc_completely_multiplicative");
    });
}
PROP(sieve_and_sum_m, 170000, 4250000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; int n = gen_size(c); bool mult = c.coin(); Tab d = mult ? multiplicative(c, n, P, false) : arbitrary(c, n, P, false), p = mult ? multiplicative(c, n, P, false) : arbitrary(c, n, P, false); if (c.chance(1, 4)) p = Tab(n, 1);
        Tab M(n, 0), S(n, 0), Tt(n, 0); for (int i = 1; i < n; i++) M[i] = (M[i - 1] + d[i]) % P, S[i] = (S[i - 1] + p[i]) % P; for (int i = 1; i < n; i++) for (int k = 1; k <= i; k++) Tt[i] = (Tt[i] + p[k] * M[i / k]) % P;
        c.show("n", n); c.show("p", p); c.show("M", M); c.nontrivial(n > 6);
        auto fn = [&](const Tab& t) { return [&mk, &t](i64 i) { return mk(t.at(i)); }; };
        auto h = table(mk, n); sieve_m(h, fn(Tt), fn(p), n); TABLE_EQ(h, M, 1, "sieve_m");
        bool ones = p == Tab(n, 1) || (n == 2 && p[1] == 1); if (ones) { h = table(mk, n); sieve_m(h, fn(Tt), n); TABLE_EQ(h, M, 1, "sieve_m with p = 1"); }
        auto pa = ref::primes_upto(n - 1);
        if (mult) { h = table(mk, n); sieve_m_multiplicative(h, fn(Tt), fn(p), n, pa.data(), (int)pa.size()); TABLE_EQ(h, M, 1, "sieve_m_multiplicative"); auto pi = inverse(p, P); h = table(mk, n); sieve_m_multiplicative_inv(h, fn(Tt), fn(pi), n, pa.data(), (int)pa.size()); TABLE_EQ(h, M, 1, "sieve_m_multiplicative_inv"); }
        int x = (int)c.range(1, n - 1); int U = (int)c.range(0, x - 1); c.show("x", x); c.show("U", U);
        { std::unordered_map<i64, R> tb; for (int i = 1; i <= U; i++) tb[i] = mk(M[i]); CHECK_EQ((i64)sum_m<R>(fn(Tt), fn(S), (i64)x, tb, mk(1)).v, M[x]); CHECK_EQ((i64)sum_m<R>(fn(Tt), fn(S), (i64)x, tb, mk(1)).v, M[x]); CHECK_EQ((i64)sum_m<R>(fn(Tt), fn(S), (i64)0, tb, mk(1)).v, 0); }
        { i64 q = std::max<i64>(U, ref::isqrt(x)); sqrt_map<i64, R> tb(q, x); for (int i = 1; i <= U; i++) tb[i] = mk(M[i]); CHECK_EQ((i64)sum_m<R>(fn(Tt), fn(S), (i64)x, tb, mk(1)).v, M[x]); }
        if (ones) { sqrt_map<int, R> tb((int)ref::isqrt(x), x); CHECK_EQ((i64)sum_m<R>(fn(Tt), x, tb, mk(1)).v, M[x]); }
        auto sm = make_sqrt_map<int, R>(fn(M), x); for (int k = 1; k <= x; k++) CHECK_MSG((i64)sm[x / k].v == M[x / k] && sm.count(x / k), "make_sqrt_map at " << x / k); CHECK_EQ((i64)sm[0].v, 0);
    });
}
PROP(squarefree_counts, 130000, 3250000) {
    int n = (int)c.integer(1, c.chance(1, 10) ? 200000 : 3000); SHOW(n); c.nontrivial(n > 10); const auto& t = ref::T();
    { std::unordered_map<i64, i64> tb; for (int i = 1, U = (int)c.range(0, n - 1 < 50 ? n - 1 : 50); i <= U; i++) tb[i] = t.sqfree[i]; CHECK_EQ(sqfree_count<i64, i64>(n, tb, 1), (i64)t.sqfree[n]); for (i64 k = 1; k <= 5; k++) CHECK_EQ(sqfree_count<i64, i64>(n / k, tb, 1), (i64)t.sqfree[n / k]); }
    { std::unordered_map<int, modx> tb; CHECK_EQ(sqfree_count<modx, int>(n, tb, modx(1, 10007)).v, t.sqfree[n] % 10007); }
    if (n < 20000) { auto pa = ref::primes_upto(ref::isqrt(n - 1)); std::vector<i64> v(n); sieve_sqfree_count<i64>(v, n, pa.data(), (int)pa.size()); CHECK_EQ(v, std::vector<i64>(t.sqfree.begin(), t.sqfree.begin() + n)); }
}
PROP(totient_sums, 6400, 160000) {
    i64 n = c.chance(1, 10) ? c.range(1, 30000) : c.range(1, 400); int D = (int)c.range(0, 4), L = (int)c.range(0, 4); const auto& t = ref::T(); SHOW(n); SHOW(D); SHOW(L); c.nontrivial(n > 6 && D + L > 1); const i64 P = 1000000007;
    std::vector<i64> vn{ n }; for (int k = (int)c.range(0, 3); k-- > 0;) { i64 x = c.range(1, n); vn.insert(vn.begin() + c.below(vn.size() + 1), x); } int U = c.coin() ? 0 : (int)c.range((i64)ref::isqrt(n) + 1, 2 * (i64)ref::isqrt(n) + 30); SHOW(vn); SHOW(U);
    // euler_phi_D(m) = Sum[mu(m/d) binomial(D+d-1, D)]
    auto inv = [&](i64 x) { return (i64)ref::powmod(x, P - 2, P); };
    std::vector<i64> g(n + 1, 1), ph(n + 1, 0), s(n + 1, 0); for (i64 d = 1; d <= n; d++) for (int i = 0; i < D; i++) g[d] = g[d] * (d + i) % P * inv(i + 1) % P;
    for (i64 d = 1; d <= n; d++) for (i64 k = 1; k * d <= n; k++) if (t.mu[k]) ph[k * d] = (ph[k * d] + P + t.mu[k] * g[d]) % P; for (i64 k = 1; k <= n; k++) s[k] = (s[k - 1] + (i64)ref::powmod(k, L, P) * ph[k]) % P;
    auto r = sum_phi_D_L<modx>(D, L, vn, U, modx(1, P)); CHECK_EQ(r.size(), vn.size()); for (size_t i = 0; i < vn.size(); i++) CHECK_MSG(r[i].v == s[vn[i]], "at " << vn[i] << ": " << r[i].v << " expected " << s[vn[i]]);
    CHECK_EQ((i64)sum_phi_D_L<modc>(D, L, n, U).v, s[n]); { auto q = sum_phi_D_L<modc>(D, L, vn, U); CHECK_EQ(q.size(), vn.size()); for (size_t i = 0; i < vn.size(); i++) CHECK_MSG(q[i].v == s[vn[i]], "default unit, at " << vn[i]); } { auto q = sum_phi<modc, i64>(n); CHECK_EQ((i64)q[n].v, t.phisum[n] % P); }
    auto m = sum_phi<i64, i64>(n); for (i64 k = 1; k <= n; k++) if (k == 1 || m.count(n / k)) CHECK_MSG(m[n / k] == t.phisum[n / k], "sum_phi at " << n / k << ": " << m[n / k]);
    std::vector<int> phi(t.phi.begin(), t.phi.begin() + (int)n + 1); auto m2 = sum_phi<modx, i64>(n, modx(1, 10007), phi.data()); CHECK_EQ((i64)m2[n].v, t.phisum[n] % 10007);
    CHECK_EQ(m[n], t.phisum[n]);
}
PROP(divisor_sigma_powers, 670000, 16750000) {
    int n = gen_size(c), k = (int)c.range(0, 8); auto pa = ref::primes_upto(n - 1); SHOW(n); SHOW(k); c.nontrivial(n > 6);
    with_ring(c, [&](auto mk, i64 P) { Tab e(n, 0); for (int d = 1; d < n; d++) for (int i = d; i < n; i += d) e[i] = (e[i] + (i64)ref::powmod(d, k, P)) % P; auto h = table(mk, n); divisor_sigma(h, k, n, pa.data(), (int)pa.size(), mk(1)); TABLE_EQ(h, e, 1, "divisor_sigma"); });
    if (k < 5) { std::vector<i64> h(n), e(n); for (int d = 1; d < n; d++) for (int i = d; i < n; i += d) e[i] += (i64)ref::ipow(d, k); divisor_sigma<i64>(h, k, n, pa.data(), (int)pa.size()); h[0] = 0; CHECK_EQ(h, e); }
}
// a random multiplicative function f(p^e) = hash(p, e), or totient / divisor count / square-free
struct MF { int kind; u64 salt; i64 P; i64 at(i64 p, int e) const { switch (kind) { case 0: return (i64)((ref::powmod(p, e, P) + P - ref::powmod(p, e - 1, P)) % P); case 1: return (e + 1) % P; case 2: return e > 1 ? 0 : 1; case 3: return e > 1 ? 0 : P - 1; case 4: return p == 2 ? 0 : (e & 1 ? P - 1 : 1); default: { u64 z = (p * 1000003ull + e) * 0x9e3779b97f4a7c15ull + salt; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return (i64)((z >> 20) % P); } } } };
PROP(multiplicative_sums, 17000, 425000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; i64 n = c.chance(1, 8) ? c.range(1, 60000) : c.chance(1, 4) ? (i64)(c.range(1, 17) * c.range(1, 17) * c.range(1, 17)) : c.range(1, 1500); MF f{ (int)c.range(0, 6), c.below(0), P }; const auto& t = ref::T(); c.show("n", n); c.show("kind", f.kind); c.show("salt", f.salt); c.nontrivial(n > 8);
        Tab v(n + 1, 0), S(n + 1, 0), S1(n + 1, 0); v[1] = 1; for (i64 i = 2; i <= n; i++) { int p = t.spf[i], e = 0; i64 m = i; while (m % p == 0) m /= p, e++; v[i] = v[m] * f.at(p, e) % P; } for (i64 i = 1; i <= n; i++) S[i] = (S[i - 1] + v[i]) % P, S1[i] = (S1[i - 1] + (i > 1 && t.spf[i] == i ? v[i] : 0)) % P;
        auto fe = [&](R f1, i64 p, int e) { if (e < 1 || (e > 1 && (i64)f1.v != f.at(p, e - 1)) || (e == 1 && f1.v != 1)) throw pbt::Fail{ "f called with a wrong f(p^(e-1)) for p=" + std::to_string(p) + " e=" + std::to_string(e) }; return mk(f.at(p, e)); };
        auto s1 = [&](i64 m) { if (m < 0 || m > n) throw pbt::Fail{ "s1 evaluated at " + std::to_string(m) }; return mk(S1[m]); };
        auto pa = ref::primes_upto(ref::isqrt(n)); CHECK_EQ((i64)sum_multiplicative_34<R>(s1, fe, n, pa.data(), (int)pa.size(), mk(1)).v, S[n]);
        if (c.coin()) pa = ref::primes_upto(std::max<i64>(ref::isqrt(n), (i64)std::sqrt(n * std::log((double)n))));
        auto m = sum_multiplicative<R>(s1, fe, n, pa.data(), (int)pa.size(), mk(1)); for (i64 k = 1; k <= n; k = n / (n / k) + 1) CHECK_MSG((i64)m[n / k].v == S[n / k], "sum_multiplicative at " << n / k << ": " << m[n / k].v << " expected " << S[n / k]);
        auto tb = make_sqrt_map<i64, R>(s1, n); m = sum_multiplicative<R>(tb, fe, n, pa.data(), (int)pa.size(), mk(1)); CHECK_EQ((i64)m[n].v, S[n]);
    });
}
PROP(coprime_sums_and_rough_numbers, 70000, 1750000) {
    std::vector<int> pr; for (int p : { 2, 3, 5, 7, 11, 13 }) if (c.coin()) pr.push_back(p); i64 n = c.range(0, 500); SHOW(pr); SHOW(n); c.nontrivial(pr.size() > 1 && n > 5); int z = (int)c.range(0, 2);
    auto f = [&](i64 k) { return z == 0 ? 1 : z == 1 ? k : k * k + 3; }; i64 e = 0; for (i64 k = 1; k <= n; k++) { bool cop = true; for (int p : pr) cop &= k % p != 0; if (cop) e += f(k); }
    auto sf = [&](i64 nn, i64 m) { i64 s = 0; for (i64 k = 1; k <= nn; k++) s += f(k * m); return s; };
    CHECK_EQ(coprime_sum<i64>(pr.begin(), pr.end(), n, sf), e);
    if (n < 2) return; int k = (int)c.range(1, 6); static const std::vector<int>& ps = ref::T().primes; int pk = ps[k - 1]; auto pa = ref::primes_upto(n); std::vector<i64> got, want; if (k > (int)pa.size()) return; i64 m0 = c.range(1, 3);
    traverse_rough_numbers<i64>([](i64 f1, i64 p, int e) { return f1 * (e == 1 ? p + 1 : 2); }, n, k, pa.data(), (int)pa.size(), [&](i64 m, i64 fm) { got.push_back(m); i64 x = m / m0, w = m0; for (auto& g : ref::factor(x)) w *= (i64)(g.first + 1) << (g.second - 1); if (w != fm) throw pbt::Fail{ "f(" + std::to_string(m) + ") passed as " + std::to_string(fm) }; }, m0, m0);
    for (i64 x = 2; x <= n; x++) if (ref::T().spf[x] == pk) want.push_back(x * m0); std::sort(got.begin(), got.end()); CHECK_EQ(got, want);
}
// the documented default unit is T(1), the default initial values of the traversal 1 and f(1) = 1
PROP(default_unit, 20000, 500000) {
    const i64 P = 1000000007; i64 n = c.chance(1, 8) ? c.range(1, 20000) : c.range(1, 800); MF f{ (int)c.range(0, 6), c.below(0), P }; const auto& t = ref::T(); SHOW(n); c.show("kind", f.kind); c.show("salt", f.salt); c.nontrivial(n > 8);
    Tab v(n + 1, 0), S(n + 1, 0), S1(n + 1, 0); v[1] = 1; for (i64 i = 2; i <= n; i++) { int p = t.spf[i], e = 0; i64 m = i; while (m % p == 0) m /= p, e++; v[i] = v[m] * f.at(p, e) % P; } for (i64 i = 1; i <= n; i++) S[i] = (S[i - 1] + v[i]) % P, S1[i] = (S1[i - 1] + (t.spf[i] == i ? v[i] : 0)) % P;
    auto fe = [&](modc, i64 p, int e) { return modc((int)f.at(p, e)); }; auto s1 = [&](i64 m) { return modc((int)S1[m]); }; S1[1] = 0;
    auto pa = ref::primes_upto(ref::isqrt(n)); CHECK_EQ((i64)sum_multiplicative_34<modc>(s1, fe, n, pa.data(), (int)pa.size()).v, S[n]); auto m = sum_multiplicative<modc>(s1, fe, n, pa.data(), (int)pa.size()); CHECK_EQ((i64)m[n].v, S[n]);
    auto tb = make_sqrt_map<i64, modc>(s1, n); CHECK_EQ((i64)sum_multiplicative_34<modc>(tb, fe, n, pa.data(), (int)pa.size()).v, S[n]);
    pa = ref::primes_upto(n); if (pa.size() < 1) return; int k = (int)c.range(1, std::min<i64>(6, pa.size())); std::vector<i64> got, want; std::map<i64, i64> val; traverse_rough_numbers<modc>(fe, n, k, pa.data(), (int)pa.size(), [&](i64 m, modc fm) { got.push_back(m); val[m] = fm.v; });
    for (i64 x = 2; x <= n; x++) if (t.spf[x] == pa[k - 1]) want.push_back(x); std::sort(got.begin(), got.end()); CHECK_EQ(got, want); for (auto& e : val) CHECK_EQ(e.second, v[e.first]);
}

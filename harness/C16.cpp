// C16: linear recurrences, Fibonacci/Lucas numbers, Berlekamp-Massey, Bernoulli numbers.
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/matrix.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64; typedef std::vector<u64> V;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef modulo<int, 1009, modulo_storage::CONSTANT> mods; typedef moduloX<int> modx; typedef moduloX<i64> modxl;
template<typename M> struct Mk { M id; M operator()(u64 v) const { return castOf(id, v); } };
template<typename F> static void with_field(Ctx& c, F body) {
    switch (c.below(4)) {
    case 0: body(Mk<modc>{ modc(1) }, (u64)1000000007); break; case 1: body(Mk<mods>{ mods(1) }, (u64)1009); break;
    case 2: { int P = c.pick<int>({ 2, 3, 5, 101, 998244353, 2147483647 }); c.show("P", P); body(Mk<modx>{ modx(1, P) }, (u64)P); break; }
    default: { i64 P = c.pick<i64>({ 2305843009213693951ll, 4294967311ll, 7ll, 9223372036854775783ll }); c.show("P", P); body(Mk<modxl>{ modxl(1, P) }, (u64)P); }
    }
}
static u64 addm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + b) % P); } static u64 subm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + P - b) % P); }
static u64 nxt(const V& co, const V& f, u64 P) { u64 s = 0; for (size_t i = 0; i < co.size(); i++) s = addm(s, ref::mulmod(co[i], f[f.size() - 1 - i], P), P); return s; }
// n-th element through powers of the companion matrix
static u64 nth(const V& co, const V& init, u64 n, u64 P) {
    size_t L = co.size(); std::vector<V> m(L, V(L, 0)), r(L, V(L, 0)); for (size_t i = 0; i + 1 < L; i++) m[i][i + 1] = 1 % P; for (size_t i = 0; i < L; i++) m[L - 1][i] = co[L - 1 - i], r[i][i] = 1 % P;
    auto mul = [&](const std::vector<V>& a, const std::vector<V>& b) { std::vector<V> t(L, V(L, 0)); for (size_t i = 0; i < L; i++) for (size_t k = 0; k < L; k++) if (a[i][k]) for (size_t j = 0; j < L; j++) t[i][j] = addm(t[i][j], ref::mulmod(a[i][k], b[k][j], P), P); return t; };
    for (; n; n >>= 1) { if (n & 1) r = mul(r, m); m = mul(m, m); } u64 s = 0; for (size_t j = 0; j < L; j++) s = addm(s, ref::mulmod(r[0][j], init[j], P), P); return s;
}
static V gen(Ctx& c, int n, u64 P) { V p(n); int kind = (int)c.below(4); for (int i = 0; i < n; i++) switch (kind) { case 0: p[i] = c.below(P); break; case 1: p[i] = c.chance(1, 3) ? c.below(P) : 0; break; case 2: p[i] = P - 1 - c.below(2); break; default: p[i] = c.below(std::min<u64>(P, 3)); } return p; }
PROP(linear_recurrences, 13000, 325000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; int L = (int)c.size_mostly(1, 7, 40, 60), extra = (int)c.below(3); V co = gen(c, L, P), in = gen(c, L, P); u64 n = c.coin() ? c.range(0, 30) : c.uinteger(0, (u64)INT64_MAX); SHOW(co); SHOW(in); SHOW(n); c.nontrivial(L > 1); V f = in; while (f.size() < std::max(31, L + 3)) f.push_back(nxt(co, f, P)); std::vector<R> C, I; for (u64 x : co) C.push_back(mk(x)); for (int i = 0; i < L + extra; i++) I.push_back(mk(f[i]));
        u64 e = n <= 30 ? f[n] : nth(co, in, n, P); CHECK_EQ((u64)linear_recurrence<R, R>(C, I, (i64)n).v, e); CHECK_EQ((u64)linear_recurrence<R, R>(C, I, n).v, e); CHECK_EQ((u64)linear_recurrence_next<R, R>(C, I).v, f[L + extra]); for (int k = 0; k < 31; k += 3) CHECK_EQ((u64)linear_recurrence<R, R>(C, I, k).v, f[k]);
        auto p = linear_recurrence_coeff_to_poly(C); CHECK_EQ(p.deg(), L); auto D = linear_recurrence_poly_to_coeff(p); CHECK_EQ((int)D.size(), L); for (int i = 0; i < L; i++) CHECK_EQ((u64)D[i].v, co[i]); CHECK_EQ((u64)p[L].v, 1 % P);
        // the values may be of another type: pairs of values as 1x... polynomials
        typedef polynom<R> PL; std::vector<PL> J; V g = gen(c, L, P); for (int i = 0; i < L; i++) J.push_back(PL(std::vector<R>{ mk(in[i]), mk(g[i]) })); if (n <= 30) { V h = g; while (h.size() < 31) h.push_back(nxt(co, h, P)); auto r = linear_recurrence<R, PL>(C, J, (int)n); CHECK_EQ((u64)r.at(0).v, f[n]); CHECK_EQ((u64)r.at(1).v, h[n]); }
    });
}
PROP(fibonacci_and_lucas, 13000, 325000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; u64 n = c.coin() ? c.range(0, 60) : c.uinteger(0, (u64)INT64_MAX); u64 p = c.below(P), q = c.below(P); SHOW(n); SHOW(p); SHOW(q); c.nontrivial(n > 2); u64 mq = subm(0, q, P), one = 1 % P, two = 2 % P; R id = mk(1);
        CHECK_EQ((u64)fibonacci<R>((i64)n, id).v, nth({ one, one }, { 0, one }, n, P)); CHECK_EQ((u64)lucas_l<R>((i64)n, id).v, nth({ one, one }, { two, one }, n, P)); CHECK_EQ((u64)lucas_u<R>(mk(p), mk(q), (i64)n).v, nth({ p, mq }, { 0, one }, n, P)); CHECK_EQ((u64)lucas_v<R>(mk(p), mk(q), (i64)n).v, nth({ p, mq }, { two, p }, n, P));
        int k = (int)c.range(0, 90); i64 a = 0, b = 1; for (int i = 0; i < k; i++) { i64 t = a + b; a = b; b = t; } CHECK_EQ(fibonacci<i64>(k), a); if (k < 80) CHECK_EQ(lucas_l<i64>(k), 2 * b - a);
    });
}
PROP(berlekamp_massey_recovers, 80000, 2000000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; int L = (int)c.size_mostly(0, 6, 40, 60), len = std::max(2, 2 * L + (int)c.below(8)); V co = gen(c, L, P), f = gen(c, L, P); if (L == 0) f.assign(len, 0); while ((int)f.size() < len) f.push_back(nxt(co, f, P)); SHOW(co); SHOW(f); std::vector<R> A; for (u64 x : f) A.push_back(mk(x)); bool zero = true; for (u64 x : f) zero &= !x; c.nontrivial(!zero && L > 1); c.label("zero sequence", zero); c.label("odd length", len & 1);
        auto C = berlekamp_massey<R, R>(A, mk(1)); V d; for (auto& x : C) d.push_back((u64)x.v); SHOW(d); CHECK_MSG((int)d.size() <= L, "order " << d.size() << " exceeds " << L); for (size_t i = d.size(); i < f.size(); i++) CHECK_MSG(nxt(d, V(f.begin(), f.begin() + i), P) == f[i], "element " << i << " does not satisfy the recurrence found");
        // minimality: no recurrence of smaller order (rank of the Hankel matrix)
        if (P < 1000000) { int n = len / 2; std::vector<V> h(n, V(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h[i][j] = f[i + j]; int r = 0; for (int j = 0; j < n; j++) { int k = r; while (k < n && !h[k][j]) k++; if (k == n) continue; std::swap(h[k], h[r]); u64 iv = P == 2 ? 1 : ref::powmod(h[r][j], P - 2, P); for (int i = r + 1; i < n; i++) { u64 s = ref::mulmod(h[i][j], iv, P); for (int t = j; t < n; t++) h[i][t] = subm(h[i][t], ref::mulmod(s, h[r][t], P), P); } r++; } CHECK_EQ((int)d.size(), r); }
        auto p = berlekamp_massey_poly<R, R>(A, mk(1)); CHECK_EQ(p.deg(), (int)d.size()); CHECK_EQ((u64)p[p.deg()].v, 1 % P);
    });
}
PROP(berlekamp_massey_fractions, 420000, 10500000) {
    typedef fraction<i64> Q; int L = (int)c.range(1, 2); std::vector<i64> co(L), f(L); for (auto& x : co) x = c.range(-2, 2); for (auto& x : f) x = c.range(-3, 3); while ((int)f.size() < 2 * L + (int)L) { i64 s = 0; for (int i = 0; i < L; i++) s += co[i] * f[f.size() - 1 - i]; f.push_back(s); } SHOW(co); SHOW(f); c.nontrivial(L > 1); std::vector<Q> A; for (i64 x : f) A.push_back(Q(x)); auto C = berlekamp_massey<Q, Q>(A); CHECK((int)C.size() <= L); for (size_t i = C.size(); i < f.size(); i++) { Q s(0); for (size_t j = 0; j < C.size(); j++) s += C[j] * A[i - 1 - j]; CHECK_MSG(s == A[i], "element " << i); }
}
PROP(bernoulli_numbers, 120000, 3000000) {
    { int n = (int)c.range(0, 16); typedef fraction<__int128> Q; SHOW(n); auto b = bernoulli_b<fraction<i64>>(n); CHECK_EQ((int)b.size(), n + 1); c.nontrivial(n > 1); for (int m = 0; m <= n; m++) { Q s(0); __int128 bin = 1; for (int k = 0; k <= m; k++) { s += Q(bin) * Q((__int128)b[k].p, (__int128)b[k].q); bin = bin * (m + 1 - k) / (k + 1); } CHECK_MSG(s.q == 1 && s.p == m + 1, "identity fails for m = " << m); } }
    with_field(c, [&](auto mk, u64 P) { typedef decltype(mk(1)) R; if (P < 1000) return; int n = (int)c.range(0, 60); SHOW(n); auto b = bernoulli_b<R>(n, mk(1)); CHECK_EQ((int)b.size(), n + 1); V bin{ 1 }; for (int m = 0; m <= n; m++) { V nb(m + 2, 1); for (int k = 1; k <= m; k++) nb[k] = addm(bin[k - 1], bin[k], P); bin = nb; u64 s = 0; for (int k = 0; k <= m; k++) s = addm(s, ref::mulmod(bin[k], (u64)b[k].v, P), P); CHECK_MSG(s == (u64)(m + 1), "identity fails for m = " << m << " mod " << P); } });
}

// C15: matrices: ring laws, determinant, rank, inverse, powers over fields and integers.
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "ref.h"
#include <algorithm>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64; typedef std::vector<std::vector<u64>> MX;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef modulo<int, 2, modulo_storage::CONSTANT> mod2; typedef moduloX<int> modx; typedef moduloX<i64> modxl;
template<typename M> struct Mk { M id; M operator()(u64 v) const { return castOf(id, v); } };
template<typename F> static void with_field(Ctx& c, F body) {
    switch (c.below(5)) {
    case 0: body(Mk<modc>{ modc(1) }, (u64)1000000007); break; case 1: body(Mk<mod2>{ mod2(1) }, (u64)2); break;
    case 2: { int P = c.pick<int>({ 2, 3, 5, 7, 2147483647 }); c.show("P", P); body(Mk<modx>{ modx(1, P) }, (u64)P); break; }
    case 3: { int P = c.pick<int>({ 3, 101, 998244353 }); c.show("P", P); body(Mk<modx>{ modx(1, P) }, (u64)P); break; }
    default: { i64 P = c.pick<i64>({ 2305843009213693951ll, 4294967311ll, 9223372036854775783ll }); c.show("P", P); body(Mk<modxl>{ modxl(1, P) }, (u64)P); }
    }
}
static u64 addm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + b) % P); } static u64 subm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + P - b) % P); }
static MX mulr(const MX& a, const MX& b, u64 P) { MX r(a.size(), std::vector<u64>(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) r[i][j] = addm(r[i][j], ref::mulmod(a[i][k], b[k][j], P), P); return r; }
static MX idr(int n, u64 P) { MX r(n, std::vector<u64>(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1 % P; return r; }
// determinant and rank by an elimination over an explicit pivot list
static std::pair<u64, int> elim(MX a, u64 P) { int n = (int)a.size(), m = (int)a[0].size(), r = 0; u64 d = 1 % P; for (int j = 0; j < m && r < n; j++) { int p = r; while (p < n && !a[p][j]) p++; if (p == n) { d = 0; continue; } if (p != r) { std::swap(a[p], a[r]); d = subm(0, d, P); } d = ref::mulmod(d, a[r][j], P); u64 iv = ref::powmod(a[r][j], P - 2, P); if (P == 2) iv = 1; for (int i = r + 1; i < n; i++) { u64 f = ref::mulmod(a[i][j], iv, P); if (f) for (int k = j; k < m; k++) a[i][k] = subm(a[i][k], ref::mulmod(f, a[r][k], P), P); } r++; } if (r < n) d = 0; return { d, r }; }
template<typename K> static auto mkm(const K& mk, const MX& a) -> matrix<decltype(mk(1))> { typedef decltype(mk(1)) R; matrix<R> m((int)a.size(), (int)a[0].size(), mk(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m[(int)i][j] = mk(a[i][j]); return m; }
template<typename R> static MX val(const matrix<R>& m) { MX r(m.rows()); for (int i = 0; i < m.rows(); i++) for (auto& x : m[i]) r[i].push_back((u64)x.v); return r; }
#define MEQ(got, want, what) do { MX mg = val(got), mw = want; if (mg != mw) { std::ostringstream os; os << what << ": got " << pbt::show(mg) << " expected " << pbt::show(mw); throw pbt::Fail{ os.str() }; } } while (0)
static MX gen(Ctx& c, int n, int m, u64 P) { MX a(n, std::vector<u64>(m, 0)); int kind = (int)c.below(4); for (auto& r : a) for (auto& x : r) x = kind == 0 ? c.below(P) : kind == 1 ? (c.chance(1, 3) ? c.below(P) : 0) : kind == 2 ? c.below(std::min<u64>(P, 3)) : P - 1 - c.below(std::min<u64>(P, 2));
    // make it singular: copies of rows/columns, zero rows/columns
    int s = (int)c.below(4); for (int t = 0; t < s; t++) switch (c.below(4)) { case 0: { size_t i = c.below(n), j = c.below(n); a[i] = a[j]; break; } case 1: { int i = (int)c.below(m), j = (int)c.below(m); for (auto& r : a) r[i] = r[j]; break; } case 2: { int i = (int)c.below(m); for (auto& r : a) r[i] = 0; break; } default: { size_t i = c.below(n), j = c.below(n), k = c.below(n); for (int x = 0; x < m; x++) a[i][x] = addm(a[j][x], a[k][x], P); } } return a; }
PROP(ring_operations, 38000, 950000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; int n = (int)c.size_mostly(1, 5, 20, 60), m = (int)c.size_mostly(1, 5, 20, 60), k = (int)c.size_mostly(1, 5, 20, 60); MX a = gen(c, n, m, P), b = gen(c, n, m, P), d = gen(c, m, k, P); u64 s = c.below(P); SHOW(a); SHOW(b); SHOW(d); SHOW(s); c.nontrivial(n > 1 && m > 1);
        auto A = mkm(mk, a), B = mkm(mk, b), D = mkm(mk, d); CHECK_EQ(A.rows(), n); CHECK_EQ(A.cols(), m); MX su = a, di = a, ne = a, sc = a, dv = a, tr(m, std::vector<u64>(n)); u64 is = P == 2 ? 1 : ref::powmod(s, P - 2, P); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) su[i][j] = addm(a[i][j], b[i][j], P), di[i][j] = subm(a[i][j], b[i][j], P), ne[i][j] = subm(0, a[i][j], P), sc[i][j] = ref::mulmod(a[i][j], s, P), dv[i][j] = ref::mulmod(a[i][j], is, P), tr[j][i] = a[i][j];
        MEQ(A + B, su, "a + b"); MEQ(A - B, di, "a - b"); MEQ(-A, ne, "-a"); MEQ(+A, a, "+a"); MEQ(A * D, mulr(a, d, P), "a * d"); MEQ(A * mk(s), sc, "a * s"); if (s) MEQ(A / mk(s), dv, "a / s"); MEQ(A.transpose(), tr, "transpose"); MEQ(A.transpose().transpose(), a, "transpose twice");
        { auto t = A; t += B; MEQ(t, su, "a += b"); t = A; t -= B; MEQ(t, di, "a -= b"); t = A; t *= D; MEQ(t, mulr(a, d, P), "a *= d"); t = A; t *= mk(s); MEQ(t, sc, "a *= s"); t = A; t -= t; MEQ(t, MX(n, std::vector<u64>(m, 0)), "a -= a"); if (n == m) { t = A; t *= t; MEQ(t, mulr(a, a, P), "a *= a"); } }
        CHECK_EQ(A == B, a == b); CHECK_EQ(A != B, a != b); CHECK_EQ(A < B, a < b); CHECK_EQ(A > B, a > b); CHECK_EQ(A <= B, a <= b); CHECK_EQ(A >= B, a >= b); MEQ(zeroOf(A), MX(n, std::vector<u64>(m, 0)), "zero");
        int i0 = (int)c.below(n), j0 = (int)c.below(m), h = (int)c.range(0, n - i0), w = (int)c.range(0, m - j0); MX sb; for (int i = i0; i < (h ? i0 + h : n); i++) sb.push_back(std::vector<u64>(a[i].begin() + j0, w ? a[i].begin() + j0 + w : a[i].end())); MEQ((matrix<R>(A, i0, j0, h, w)), sb, "submatrix"); auto x = A; x.swap(B); MEQ(x, b, "swap"); MEQ(B, a, "swap");
    });
}
PROP(determinant_rank_inverse, 55000, 1375000) {
    with_field(c, [&](auto mk, u64 P) {
        int n = (int)c.range(1, c.chance(1, 300) ? 30 : c.chance(1, 6) ? 9 : 5); MX a = gen(c, n, n, P), b = gen(c, n, n, P); SHOW(a); c.nontrivial(n > 1); auto A = mkm(mk, a), B = mkm(mk, b); auto e = elim(a, P), f = elim(b, P); c.label("singular", e.second < n); c.label("rank between 1 and n-1", e.second > 0 && e.second < n); c.label("zero leading column", n > 1 && [&] { for (auto& r : a) if (r[0]) return false; return true; }());
        CHECK_EQ((u64)A.det().v, e.first); CHECK_EQ(A.rank(), e.second); CHECK_EQ(A.transpose().rank(), e.second); CHECK_EQ((u64)A.transpose().det().v, e.first); CHECK_EQ((u64)(A * B).det().v, ref::mulmod(e.first, f.first, P));
        if (e.second == n) { MEQ(A * A.inverse(), idr(n, P), "a * inverse"); MEQ(A.inverse() * A, idr(n, P), "inverse * a"); MEQ(B / A * A, b, "b / a * a"); auto t = B; t /= A; t *= A; MEQ(t, b, "b /= a, b *= a"); MEQ(A.inverse().inverse(), a, "inverse of inverse"); }
        { auto m = A; matrix<decltype(mk(1))> inv; auto d = mk(0); int r = matrix<decltype(mk(1))>::gauss(m, inv, d); CHECK_EQ(r, e.second); if (r == n) MEQ(m, idr(n, P), "gauss"); MEQ(inv * A, val(m), "inv * a = reduced matrix"); }
    });
}
PROP(powers, 25000, 625000) {
    with_field(c, [&](auto mk, u64 P) {
        int n = (int)c.range(1, 4); MX a = gen(c, n, n, P); i64 e = c.coin() ? c.range(0, 20) : c.integer(0, INT64_MAX); SHOW(a); SHOW(e); c.nontrivial(n > 1 && e > 1); MX w = idr(n, P), t = a; for (i64 x = e; x; x >>= 1) { if (x & 1) w = mulr(w, t, P); t = mulr(t, t, P); } auto A = mkm(mk, a); MEQ(A.pow(e), w, "pow"); MEQ(powT(A, e), w, "powT"); MEQ(identityOf(A), idr(n, P), "identity"); if (elim(a, P).second == n) MEQ(A.pow(-e) * mkm(mk, w), idr(n, P), "pow(-e) * pow(e)"); u64 s = c.below(P); MX k = idr(n, P); for (int i = 0; i < n; i++) k[i][i] = s; MEQ(castOf(A, mk(s)), k, "cast of a scalar");
    });
}
// exact integers and fractions
PROP(integers_and_fractions, 50000, 1250000) {
    int n = (int)c.range(1, 4); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)), b = a; for (auto* m : { &a, &b }) for (auto& r : *m) for (auto& x : r) x = c.range(-3, 3); if (c.chance(1, 3)) a[c.below(n)] = a[c.below(n)]; SHOW(a); SHOW(b); c.nontrivial(n > 1);
    matrix<i64> A(n, n), B(n, n); matrix<fraction<i64>> F(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = a[i][j], B[i][j] = b[i][j], F[i][j] = fraction<i64>(a[i][j]);
    auto C = A * B, S = A + B; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { i64 s = 0; for (int k = 0; k < n; k++) s += a[i][k] * b[k][j]; CHECK_EQ(C[i][j], s); CHECK_EQ(S[i][j], a[i][j] + b[i][j]); }
    // determinant by permutations, rank as the size of the largest non-zero minor
    auto det = [&](std::vector<int> rs, std::vector<int> cs) { int k = (int)rs.size(); std::vector<int> p(k); for (int i = 0; i < k; i++) p[i] = i; i64 d = 0; do { i64 t = 1; for (int i = 0; i < k; i++) { t *= a[rs[i]][cs[p[i]]]; for (int j = 0; j < i; j++) if (p[j] > p[i]) t = -t; } d += t; } while (std::next_permutation(p.begin(), p.end())); return d; };
    auto sel = [&](int m) { std::vector<int> v; for (int i = 0; i < n; i++) if (m >> i & 1) v.push_back(i); return v; }; int rk = 0; for (int m = 1; m < 1 << n; m++) for (int q = 1; q < 1 << n; q++) { auto x = sel(m), y = sel(q); if (x.size() == y.size() && (int)x.size() > rk && det(x, y)) rk = (int)x.size(); }
    auto d = F.det(); i64 dd = det(sel((1 << n) - 1), sel((1 << n) - 1)); CHECK_EQ(d.p, dd * d.q); CHECK_EQ(F.rank(), rk); c.label("singular", rk < n);
    if (rk == n) { auto I = F * F.inverse(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_MSG(I[i][j].p == (i == j) && I[i][j].q == 1, "F * inverse at " << i << "," << j << " is " << I[i][j].p << "/" << I[i][j].q); }
}
// numbers, lists and parts as matrices
PROP(constructors, 230000, 5750000) {
    int n = (int)c.range(1, 5), m = (int)c.range(1, 5), v = (int)c.range(-50, 50); SHOW(n); SHOW(m); SHOW(v); matrix<modc> a(n, m); CHECK(a.rows() == n && a.cols() == m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) CHECK_EQ(a[i][j].v, 0); matrix<modc> b(n, m, modc(v)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { CHECK_EQ(b[i][j].v, modc(v).v); b[i][j] = modc((int)c.range(0, 99)); } matrix<modc> s(n, 0, modc(v)); CHECK(s.rows() == n && s.cols() == n);
    modc x(v); matrix<modc> one(x), l{ { x, modc(1) }, { modc(2), modc(3) }, { modc(4), modc(5) } }; CHECK(one.rows() == 1 && one.cols() == 1 && one[0][0] == x); CHECK(l.rows() == 3 && l.cols() == 2 && l[0][0] == x && l[0][1].v == 1 && l[1][0].v == 2 && l[2][1].v == 5); matrix<modc> em; CHECK(em.rows() == 0 && em.cols() == 0);
    int i = (int)c.below(n), j = (int)c.below(m), h = (int)c.range(0, n - i), w = (int)c.range(0, m - j); SHOW(i); SHOW(j); SHOW(h); SHOW(w); matrix<modc> p(b, i, j, h, w); int eh = h ? h : n - i, ew = w ? w : m - j; CHECK(p.rows() == eh && p.cols() == ew); for (int y = 0; y < eh; y++) for (int z = 0; z < ew; z++) CHECK_EQ(p[y][z].v, b[y + i][z + j].v);
    auto d = castOf<matrix<modc>>(v); CHECK(d == one); matrix<modc> r(n, n), e = castOf(r, v), id = matrix<modc>::identity(n); CHECK(e.rows() == n && e.cols() == n); for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) { CHECK(e[y][z] == (y == z ? x : modc(0))); CHECK_EQ(id[y][z].v, (int)(y == z)); } CHECK(identityOf(r) == id && zeroOf(r) == r && castOf(r, e) == e); CHECK(matrix<modc>::identity(n, x) == e); matrix<modc> t = b, k = l; t.swap(k); CHECK(t == l && k == b); CHECK_EQ(t != k, !(l == b)); c.nontrivial(n > 1 && m > 1 && n != m);
}

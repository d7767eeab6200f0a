// C14: power series modulo x^N: ring operations, calculus, composition, reversion, exp, ln, pow, roots, storage kinds.
#include "altruct/structure/math/series.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64; typedef std::vector<u64> V; // N coefficients
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef modulo<int, 1009, modulo_storage::CONSTANT> mods; typedef moduloX<int> modx; typedef moduloX<i64> modxl;
static u64 addm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + b) % P); } static u64 subm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + P - b) % P); }
static V add(V a, const V& b, u64 P) { for (size_t i = 0; i < a.size(); i++) a[i] = addm(a[i], b[i], P); return a; }
static V sub(V a, const V& b, u64 P) { for (size_t i = 0; i < a.size(); i++) a[i] = subm(a[i], b[i], P); return a; }
static V mul(const V& a, const V& b, u64 P) { V r(a.size(), 0); for (size_t i = 0; i < a.size(); i++) if (a[i]) for (size_t j = 0; i + j < a.size(); j++) r[i + j] = addm(r[i + j], ref::mulmod(a[i], b[j], P), P); return r; }
static V scal(V a, u64 s, u64 P) { for (auto& x : a) x = ref::mulmod(x, s, P); return a; }
static u64 inv(u64 a, u64 P) { return ref::powmod(a, P - 2, P); }
static V inverse(const V& a, u64 P) { V r(a.size(), 0); u64 i0 = inv(a[0], P); for (size_t n = 0; n < a.size(); n++) { u64 s = n == 0; for (size_t j = 1; j <= n; j++) s = subm(s, ref::mulmod(a[j], r[n - j], P), P); r[n] = ref::mulmod(s, i0, P); } return r; }
static V deriv(const V& a, u64 P) { V r(a.size(), 0); for (size_t i = 1; i < a.size(); i++) r[i - 1] = ref::mulmod(a[i], i % P, P); return r; }
static V integ(const V& a, u64 c0, u64 P) { V r(a.size(), 0); r[0] = c0; for (size_t i = 1; i < a.size(); i++) r[i] = ref::mulmod(a[i - 1], inv(i % P, P), P); return r; }
static V powr(V a, u64 e, u64 P) { V r(a.size(), 0); r[0] = 1 % P; while (e) { if (e & 1) r = mul(r, a, P); a = mul(a, a, P); e >>= 1; } return r; }
static V comp(const V& a, const V& b, u64 P) { V r(a.size(), 0); for (size_t i = a.size(); i-- > 0;) { r = mul(r, b, P); r[0] = addm(r[0], a[i], P); } return r; }
static V gen(Ctx& c, int n, u64 P) { V p(n); int kind = (int)c.below(4); for (int i = 0; i < n; i++) switch (kind) { case 0: p[i] = c.below(P); break; case 1: p[i] = c.chance(1, 4) ? c.below(P) : 0; break; case 2: p[i] = P - 1 - c.below(2); break; default: p[i] = c.below(3); } return p; }
template<typename M> struct Mk { M id; M operator()(u64 v) const { return castOf(id, v); } };
template<typename F> static void with_field(Ctx& c, F body) {
    switch (c.below(4)) {
    case 0: body(Mk<modc>{ modc(1) }, (u64)1000000007); break; case 1: body(Mk<mods>{ mods(1) }, (u64)1009); break;
    case 2: { int P = c.pick<int>({ 998244353, 10007, 2147483647, 1009 }); c.show("P", P); body(Mk<modx>{ modx(1, P) }, (u64)P); break; }
    default: { i64 P = c.pick<i64>({ 2305843009213693951ll, 4294967311ll, 9223372036854775783ll }); c.show("P", P); body(Mk<modxl>{ modxl(1, P) }, (u64)P); }
    }
}
template<typename S> struct elem; template<typename T, int ID, int ST> struct elem<series<T, ID, ST>> { typedef T type; };
template<typename S, typename K> static S mks(const K& mk, const V& p) { typedef typename elem<S>::type T; std::vector<T> v; for (u64 x : p) v.push_back(mk(x)); return S(v); }
template<typename S> static V val(const S& s) { V r; for (auto& x : s.p.c) r.push_back((u64)x.v); return r; }
#define SEQ(got, want, what) do { auto sg_ = (got); V pg = val(sg_); V pw = (want); if (pg != pw) { std::ostringstream os; os << what << ": got " << pbt::show(pg) << " expected " << pbt::show(pw); throw pbt::Fail{ os.str() }; } CHECK_EQ(sg_.N(), (int)pw.size()); } while (0)
// the storage kind of the series: instance, static, constant
template<typename F> static void with_series(Ctx& c, F body, int maxn = 40) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; int st = (int)c.below(4); c.show("storage", st);
        if (st == 1) { typedef series<R, 1, series_storage::STATIC> S; int n = (int)c.range(1, maxn); S::refN() = n; body(mk, P, (S*)nullptr, n); }
        else if (st == 2) { if (c.coin()) body(mk, P, (series<R, 7, series_storage::CONSTANT>*)nullptr, 7); else body(mk, P, (series<R, 16>*)nullptr, 16); }
        else body(mk, P, (seriesX<R>*)nullptr, c.chance(1, 5) ? (int)c.range(1, 4) : (int)c.range(1, maxn));
    });
}
PROP(ring_operations, 32000, 800000) {
    with_series(c, [&](auto mk, u64 P, auto* tag, int N) {
        typedef typename std::remove_pointer<decltype(tag)>::type S; typedef typename elem<S>::type R; V a = gen(c, N, P), b = gen(c, N, P); if (c.coin()) b[0] = 0; u64 s = c.below(P); SHOW(a); SHOW(b); SHOW(s); c.nontrivial(N > 1);
        S A = mks<S>(mk, a), B = mks<S>(mk, b); SEQ(A, a, "a"); SEQ(A + B, add(a, b, P), "a + b"); SEQ(A - B, sub(a, b, P), "a - b"); SEQ(-A, sub(V(N, 0), a, P), "-a"); SEQ(A * B, mul(a, b, P), "a * b"); SEQ(A * mk(s), scal(a, s, P), "a * s"); if (s) SEQ(A / mk(s), scal(a, inv(s, P), P), "a / s");
        if (b[0]) { SEQ(B.inverse(), inverse(b, P), "inverse"); SEQ(A / B, mul(a, inverse(b, P), P), "a / b"); S t = A; t /= B; t *= B; SEQ(t, a, "a / b * b"); }
        { S t = A; t += B; SEQ(t, add(a, b, P), "a += b"); t = A; t -= B; SEQ(t, sub(a, b, P), "a -= b"); t = A; t *= B; SEQ(t, mul(a, b, P), "a *= b"); t = A; t *= t; SEQ(t, mul(a, a, P), "a *= a"); t = A; t += t; SEQ(t, add(a, a, P), "a += a"); t = A; t *= mk(s); SEQ(t, scal(a, s, P), "a *= s"); if (a[0]) { t = A; t /= t; V one(N, 0); one[0] = 1 % P; SEQ(t, one, "a /= a"); } }
        SEQ(A.derivative(), deriv(a, P), "derivative"); SEQ(A.integral(), integ(a, 0, P), "integral"); SEQ(A.integral(mk(s)), integ(a, s, P), "integral with constant");
        V pm(N); for (int i = 0; i < N; i++) pm[i] = ref::mulmod(a[i], b[i], P); SEQ(A.pointwise_mul(B), pm, "pointwise_mul");
        { V z = a; for (auto& x : z) if (!x) x = 1; S Z = mks<S>(mk, z); V iz(N); for (int i = 0; i < N; i++) iz[i] = inv(z[i], P); SEQ(Z.template pointwise_inv<true>(), iz, "pointwise_inv"); SEQ(Z.template pointwise_inv<false>(), iz, "pointwise_inv"); V d(N); for (int i = 0; i < N; i++) d[i] = ref::mulmod(b[i], iz[i], P); SEQ(B.template pointwise_div<true>(Z), d, "pointwise_div"); SEQ(B.template pointwise_div<false>(Z), d, "pointwise_div"); }
        int l = c.coin() ? (int)c.range(-N, N) : (int)c.range(-2 * N - 3, 2 * N + 3); SHOW(l); c.label("shift by more than N", l > N || l < -N); V sh(N, 0); for (int i = 0; i < N; i++) if (i - l >= 0 && i - l < N) sh[i] = a[i - l]; SEQ(A.shift(l), sh, "shift");
        V sm(N); u64 w = 1 % P; for (int i = 0; i < N; i++) sm[i] = ref::mulmod(a[i], w, P), w = ref::mulmod(w, s, P); SEQ(A.sub_mul(mk(s)), sm, "s(a x)"); int e = (int)c.range(1, N + 2); V sp(N, 0); for (int i = 0; i * e < N; i++) sp[i * e] = a[i]; SEQ(A.sub_pow(e), sp, "s(x^e)");
        V me(N), mo(N); u64 f = 1; for (int i = 0; i < N; i++) { if (i) f = ref::mulmod(f, i, P); mo[i] = ref::mulmod(a[i], f, P); me[i] = ref::mulmod(a[i], inv(f, P), P); } SEQ(A.make_exponential(), me, "make_exponential"); SEQ(A.make_ordinary(), mo, "make_ordinary"); SEQ(A.make_exponential().make_ordinary(), a, "round trip");
        { V ex(N); f = 1; w = 1; for (int i = 0; i < N; i++) { if (i) f = ref::mulmod(f, i, P), w = ref::mulmod(w, s, P); ex[i] = ref::mulmod(w, inv(f, P), P); } SEQ(S::exp(mk(s), N), ex, "exp(a x)"); SEQ(S::of([&](int n) { return mk(a[n]); }, N), a, "of"); }
        int cm = 0; for (int i = N; i-- > 0 && !cm;) cm = a[i] < b[i] ? -1 : a[i] > b[i]; CHECK_EQ(A == B, cm == 0); CHECK_EQ(A != B, cm != 0); CHECK_EQ(A < B, cm < 0); CHECK_EQ(A > B, cm > 0); CHECK_EQ(A <= B, cm <= 0); CHECK_EQ(A >= B, cm >= 0);
        for (int i = 0; i < N + 3; i++) CHECK_EQ((u64)A.at(i).v, i < N ? a[i] : 0); SEQ(identityOf(A) * B, b, "1 * b"); SEQ(zeroOf(A) + B, b, "0 + b"); { V k(N, 0); k[0] = s; SEQ(castOf(A, mk(s)), k, "cast of a constant"); }
        S x(A), y; y = B; x.swap(y); SEQ(x, b, "swap"); SEQ(y, a, "swap"); S z(std::move(x)); SEQ(z, b, "moved"); x = std::move(y); SEQ(x, a, "move assigned"); { V e2 = a; e2[N - 1] = s; x[N - 1] = mk(s); SEQ(x, e2, "assigned coefficient"); SEQ(A, a, "a unchanged"); }
    });
}
PROP(instance_sizes, 400000, 10000000) {
    // series with N of their own: construction from longer/shorter polynomials, resize, assignment between sizes
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; typedef seriesX<R> S; int n = (int)c.range(1, 12), m = (int)c.range(1, 12); V a = gen(c, n, P); SHOW(a); SHOW(m); c.nontrivial(n != m); V w = a; w.resize(m, 0); polynom<R> p; p.c.clear(); for (u64 x : a) p.c.push_back(mk(x)); p.ZERO_COEFF = mk(0);
        SEQ(S(p, m), w, "from polynomial"); SEQ(S(p), a, "from polynomial"); S s(p); s.resize(m); SEQ(s, w, "resize"); SEQ(s * s, mul(w, w, P), "product after resize"); S t(p); t = s; SEQ(t, w, "assigned"); S u(p.c.begin(), p.c.end()); SEQ(u, a, "from iterators"); u.swap(s); SEQ(u, w, "swap"); SEQ(s, a, "swap"); if (m <= n) { S x(p); x.resize(m); V d = deriv(w, P); SEQ(x.derivative(), d, "derivative after resize"); }
    });
}
PROP(composition_and_reversion, 38000, 950000) {
    with_series(c, [&](auto mk, u64 P, auto* tag, int N) {
        typedef typename std::remove_pointer<decltype(tag)>::type S; V a = gen(c, N, P), b = gen(c, N, P); if (c.coin()) b[0] = 0; SHOW(a); SHOW(b); c.nontrivial(N > 2); S A = mks<S>(mk, a), B = mks<S>(mk, b); SEQ(A.composition(B), comp(a, b, P), "a(b(x))"); SEQ(A(B), comp(a, b, P), "a(b(x))");
        if (c.chance(7, 8)) { a[0] = 0; if (N > 1 && !a[1]) a[1] = 1 + c.below(P - 1); } S C = mks<S>(mk, a); S R = C.reversion(); V r = val(R); if (a[0] || N < 2 || !a[1]) SEQ(R, V(N, 0), "reversion when there is none"); else { V x(N, 0); x[1] = 1; V q = comp(a, r, P); CHECK_MSG(q == x, "a(reversion(a)) = " << pbt::show(q) << " for a = " << pbt::show(a)); q = comp(r, a, P); CHECK_MSG(q == x, "reversion(a)(a) = " << pbt::show(q)); c.label("reversion"); }
    }, 24);
}
PROP(exp_ln_pow, 38000, 950000) {
    with_series(c, [&](auto mk, u64 P, auto* tag, int N) {
        typedef typename std::remove_pointer<decltype(tag)>::type S; V a = gen(c, N, P), b = gen(c, N, P); a[0] = 0; SHOW(a); SHOW(b); c.nontrivial(N > 2); S A = mks<S>(mk, a);
        // exp by its differential equation: n e[n] = sum k a[k] e[n-k]
        V e(N, 0); e[0] = 1; for (int n = 1; n < N; n++) { u64 s = 0; for (int k = 1; k <= n; k++) s = addm(s, ref::mulmod(ref::mulmod(k, a[k], P), e[n - k], P), P); e[n] = ref::mulmod(s, inv(n, P), P); }
        SEQ(A.exp(), e, "exp"); SEQ(A.exp().ln(), a, "ln(exp)"); SEQ(mks<S>(mk, e).ln(), a, "ln"); { u64 k = c.below(P); V w = a; w[0] = k; SEQ(mks<S>(mk, e).ln(mk(k)), w, "ln with constant"); }
        // powers
        int kind = (int)c.below(4); if (kind == 0) b[0] = 1; else if (kind == 1) b[0] = 0; else if (kind == 2) { int z = (int)c.range(0, N); for (int i = 0; i < z; i++) b[i] = 0; } u64 x = c.coin() ? c.range(0, 12) : c.coin() ? c.range(150, 450) : c.uinteger(0, (u64)INT64_MAX); int lo = 0; while (lo < N && !b[lo]) lo++; SHOW(b); SHOW(x); c.label("zero constant", b[0] == 0); c.label("zero series", lo == N); c.label("large exponent", x >= 200);
        V w = powr(b, x, P); S B = mks<S>(mk, b); SEQ(B.pow((i64)x), w, "pow"); if (c.coin()) { i64 th = c.pick<i64>({ 0, 2, 10, 1000000000000000000ll }); c.show("threshold", th); SEQ(B.pow((i64)x, th), w, "pow with threshold"); } SEQ(powT(B, x), w, "powT");
    }, 20);
}
// Newton iteration: square root, inverse
PROP(find_root, 88000, 2200000) {
    with_series(c, [&](auto mk, u64 P, auto* tag, int N) {
        typedef typename std::remove_pointer<decltype(tag)>::type S; typedef typename elem<S>::type R; typedef seriesX<R> SX; V a = gen(c, N, P); u64 r0 = 1 + c.below(P - 1); V q = a; q[0] = r0; V sq = mul(q, q, P); SHOW(q); c.nontrivial(N > 2);
        polynom<R> p; p.c.clear(); p.ZERO_COEFF = mk(0); for (u64 x : sq) p.c.push_back(mk(x)); S r = S::find_root(mk(r0), N, [&](const SX& x) { SX f(p, x.N()); return (x * x - f) / (x * mk(2)); }); SEQ(r, q, "square root");
    });
}
// every constructor truncates or pads to its number of terms
PROP(constructors, 650000, 16250000) {
    typedef series<modc, 5, series_storage::CONSTANT> S5; typedef seriesX<modc> SX; std::vector<modc> v(c.range(1, 9)); for (auto& x : v) x = modc((int)c.range(0, 20)); int n = (int)v.size(), N = (int)c.range(1, 9), k = (int)c.range(-9, 99); SHOW(n); SHOW(N); SHOW(k); polynom<modc> p(v); auto at = [&](int i) { return i < n ? v[i] : modc(0); };
    auto is5 = [&](const S5& s, const char* what) { CHECK_MSG(s.N() == 5 && s.size() == 5, what); for (int i = 0; i < 5; i++) CHECK_MSG(s[i] == at(i) && s.at(i) == at(i), what << ": coefficient " << i); CHECK_MSG(s.p.size() == 5, what); }; auto isX = [&](const SX& s, int N, const char* what) { CHECK_MSG(s.N() == N && s.size() == N, what); for (int i = 0; i < N; i++) CHECK_MSG(s[i] == at(i), what << ": coefficient " << i); CHECK_MSG(s.p.size() == N, what); };
    is5(S5(p), "from a polynomial"); is5(S5(polynom<modc>(p)), "from a moved polynomial"); is5(S5(v), "from a vector"); is5(S5(std::vector<modc>(v)), "from a moved vector"); is5(S5(v.begin(), v.end()), "from a range"); is5(S5(p, 5), "from a polynomial and a size"); isX(SX(p), n, "from a polynomial"); isX(SX(polynom<modc>(p)), n, "from a moved polynomial"); isX(SX(v), n, "from a vector"); isX(SX(std::vector<modc>(v)), n, "from a moved vector"); isX(SX(v.begin(), v.end()), n, "from a range"); isX(SX(p, N), N, "from a polynomial and a size"); isX(SX(polynom<modc>(p), N), N, "from a moved polynomial and a size");
    SX a(p, N), b(a), d(std::move(b)), e(modc(7)), f(modc(8)); isX(a, N, "source of a copy"); isX(d, N, "moved"); e = a; isX(e, N, "assigned"); f = SX(p, N); isX(f, N, "move assigned"); f = f; isX(f, N, "assigned to itself"); f.resize(N + 3); for (int i = N; i < N + 3; i++) CHECK(f[i] == modc(0)); CHECK_EQ(f.N(), N + 3); f.resize(1); isX(f, 1, "resized"); f.swap(e); isX(f, N, "swapped"); isX(e, 1, "swapped");
    S5 t = castOf<S5>(k); CHECK(t.N() == 5 && t[0] == modc(k)); for (int i = 1; i < 5; i++) CHECK(t[i] == modc(0)); CHECK(S5(modc(k)) == t && castOf(S5(p), k) == t); SX u = castOf(a, k); CHECK(u.N() == N && u[0] == modc(k)); for (int i = 1; i < N; i++) CHECK(u[i] == modc(0)); CHECK(castOf(a, u) == u); SX z = zeroOf(a), id = identityOf(a); CHECK(z.N() == N && id.N() == N && id[0] == modc(1)); for (int i = 0; i < N; i++) CHECK(z[i] == modc(0) && (i == 0 || id[i] == modc(0))); c.nontrivial(n != N && n != 5);
}

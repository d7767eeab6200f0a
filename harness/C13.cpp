// C13: polynomials: ring laws, multiplication algorithms, division, calculus, residues modulo a polynomial, zeros, discrete integral.
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/algorithm/math/polynoms.h"
#include "ref.h"
#include <cmath>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64; typedef std::vector<u64> Poly; // no trailing zeros
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef moduloX<int> modx; typedef moduloX<i64> modxl; typedef moduloX<uint32_t> modxu; typedef modulo<uint32_t, 4294967291u, modulo_storage::CONSTANT> modcu;
template<typename M> struct Mk { M id; M operator()(u64 v) const { return castOf(id, v); } };
template<typename F> static void with_field(Ctx& c, F body) {
    switch (c.below(6)) {
    case 0: body(Mk<modc>{ modc(1) }, (u64)1000000007); break; case 1: { int P = c.pick<int>({ 998244353, 10007, 101, 2147483647 }); c.show("P", P); body(Mk<modx>{ modx(1, P) }, (u64)P); break; }
    case 2: body(Mk<modcu>{ modcu(1) }, (u64)4294967291u); break; case 3: { uint32_t P = c.pick<uint32_t>({ 4294967291u, 4294967279u, 65537u, 3u, 2u, 7u }); c.show("P", P); body(Mk<modxu>{ modxu(1u, P) }, (u64)P); break; }
    case 4: { i64 P = c.pick<i64>({ 2305843009213693951ll, 4294967311ll, 1000000000039ll, 101ll, 9223372036854775783ll }); c.show("P", P); body(Mk<modxl>{ modxl(1, P) }, (u64)P); break; }
    default: { int P = c.pick<int>({ 2, 3, 5, 7 }); c.show("P", P); body(Mk<modx>{ modx(1, P) }, (u64)P); } }
}
static Poly trim(Poly p) { while (!p.empty() && p.back() == 0) p.pop_back(); return p; }
static u64 addm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + b) % P); } static u64 subm(u64 a, u64 b, u64 P) { return (u64)(((u128)a + P - b) % P); }
static Poly add(const Poly& a, const Poly& b, u64 P, bool sub) { Poly r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < r.size(); i++) { u64 x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; r[i] = sub ? subm(x, y, P) : addm(x, y, P); } return trim(r); }
static Poly mul(const Poly& a, const Poly& b, u64 P) { if (a.empty() || b.empty()) return {}; Poly r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) if (a[i]) for (size_t j = 0; j < b.size(); j++) r[i + j] = addm(r[i + j], ref::mulmod(a[i], b[j], P), P); return trim(r); }
static u64 ev(const Poly& a, u64 x, u64 P) { u64 r = 0; for (size_t i = a.size(); i-- > 0;) r = addm(ref::mulmod(r, x, P), a[i], P); return r; }
static Poly gen(Ctx& c, int n, u64 P) { Poly p(n); int kind = (int)c.below(5); u64 salt = kind == 4 ? c.below(0) : 0; for (int i = 0; i < n; i++) switch (kind) { case 0: p[i] = c.below(P); break; case 1: p[i] = c.chance(1, 4) ? c.below(P) : 0; break; case 2: p[i] = P - 1; break; case 3: p[i] = c.below(std::min<u64>(P, 3)); break; default: { u64 z = salt + i * 0x9e3779b97f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 32; p[i] = z % P; } } return trim(p); }
// with `zeros` extra leading zero coefficients; sometimes as an empty list
template<typename K, typename R = decltype(std::declval<K>()(1))> static polynom<R> mkp(const K& mk, const Poly& p, int zeros = 0) { std::vector<R> v; for (u64 x : p) v.push_back(mk(x)); for (int i = 0; i < zeros; i++) v.push_back(mk(0)); if (v.empty()) v.push_back(mk(0)); return polynom<R>(v); }
template<typename R> static Poly val(const polynom<R>& p) { Poly r; for (auto& x : p.c) r.push_back((u64)x.v); return trim(r); }
#define PEQ(got, want, what) do { Poly pg = val(got); if (pg != (want)) { std::ostringstream os; os << what << ": got " << pbt::show(pg) << " expected " << pbt::show(want); throw pbt::Fail{ os.str() }; } } while (0)
PROP(ring_operations, 84000, 2100000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; int zn = (int)c.below(3); auto a = gen(c, c.len(0, 12), P), b = gen(c, c.len(0, 12), P); u64 s = c.below(P); c.show("a", a); c.show("b", b); c.show("s", s); c.nontrivial(a.size() > 1 && b.size() > 1);
        auto A = mkp(mk, a, zn), B = mkp(mk, b, (int)c.below(3)); PEQ(A + B, add(a, b, P, false), "a + b"); PEQ(A - B, add(a, b, P, true), "a - b"); PEQ(-A, add({}, a, P, true), "-a"); auto ab = mul(a, b, P); PEQ(A * B, ab, "a * b"); PEQ(A, a, "a unchanged"); PEQ(B, b, "b unchanged");
        { auto t = A; t += B; PEQ(t, add(a, b, P, false), "a += b"); t = A; t -= B; PEQ(t, add(a, b, P, true), "a -= b"); t = A; t *= B; PEQ(t, ab, "a *= b"); t = A; t += t; PEQ(t, add(a, a, P, false), "a += a"); t = A; t -= t; PEQ(t, Poly(), "a -= a"); t = A; t *= t; PEQ(t, mul(a, a, P), "a *= a"); t = B; polynom<R>::mul(t, A, t); PEQ(t, ab, "b = a * b"); t = B; polynom<R>::sub(t, A, t); PEQ(t, add(a, b, P, true), "b = a - b"); }
        { auto as = mul(a, s ? Poly{ s } : Poly(), P); PEQ(A * mk(s), as, "a * s"); auto t = A; t *= mk(s); PEQ(t, as, "a *= s"); if (s) { PEQ(t / mk(s), a, "a * s / s"); t /= mk(s); PEQ(t, a, "a *= s, a /= s"); } }
        int l = (int)c.range(0, (int)(a.size() + b.size()) + 3); c.show("l", l); { polynom<R> r = c.coin() ? A : B; polynom<R>::mul(r, A, B, l); auto w = ab; w.resize(std::min<size_t>(w.size(), l + 1)); PEQ(r, trim(w), "a * b truncated"); CHECK_EQ(r.size(), l + 1); auto t = A; polynom<R>::mul(t, t, B, l); PEQ(t, trim(w), "a = a * b truncated"); t = B; polynom<R>::mul(t, A, t, l); PEQ(t, trim(w), "b = a * b truncated"); auto a2 = mul(a, a, P); a2.resize(std::min<size_t>(a2.size(), l + 1)); t = A; polynom<R>::mul(t, t, t, l); PEQ(t, trim(a2), "a = a * a truncated"); }
        int cm = 0; for (size_t i = std::max(a.size(), b.size()); i-- > 0 && !cm;) { u64 x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; cm = x < y ? -1 : x > y; } CHECK_EQ(polynom<R>::cmp(A, B), cm); CHECK_EQ(A == B, cm == 0); CHECK_EQ(A != B, cm != 0); CHECK_EQ(A < B, cm < 0); CHECK_EQ(A > B, cm > 0); CHECK_EQ(A <= B, cm <= 0); CHECK_EQ(A >= B, cm >= 0);
        int dg = a.empty() ? 0 : (int)a.size() - 1; CHECK_EQ(A.deg(), dg); int lo = 0; while (lo < (int)a.size() && !a[lo]) lo++; CHECK_EQ(A.lowest(), a.empty() ? 0 : lo); CHECK_EQ((u64)A.leading_coeff().v, a.empty() ? 0 : a.back()); CHECK_EQ(A.is_power(), !a.empty() && a.back() == 1 % P && lo == dg); CHECK_EQ((u64)A.at(-1).v, 0); CHECK_EQ((u64)A.at(100).v, 0); { const auto& CA = A; for (int i = 0; i < 15; i++) CHECK_EQ((u64)CA[i].v, i < (int)a.size() ? a[i] : 0); auto t = A; t[20] = mk(1); CHECK_EQ(t.size(), 21); CHECK_EQ(t.deg(), 20); t[20] = mk(0); PEQ(t, a, "a with a coefficient set and cleared"); t.shrink_to_fit(); CHECK_EQ(t.size(), dg + 1); }
        auto ra = a; std::reverse(ra.begin(), ra.end()); PEQ(A.reverse(), trim(ra), "reverse");
        u64 x = c.below(P); CHECK_EQ((u64)A(mk(x)).v, ev(a, x, P)); CHECK_EQ((u64)A.eval(mk(x)).v, ev(a, x, P)); Poly d; for (size_t i = 1; i < a.size(); i++) d.push_back(ref::mulmod(a[i], i % P, P)); PEQ(A.derivative(), trim(d), "derivative");
        if (P > 30) { auto I = A.integral(mk(s)); Poly vi = val(I); CHECK_EQ(vi.empty() ? 0 : vi[0], s); PEQ(I.derivative(), a, "derivative of the integral"); auto J = A.integral(); CHECK_EQ((u64)J[0].v, 0); PEQ(J.derivative(), a, "derivative of the integral"); }
        // composition by evaluation at a polynomial
        if (a.size() < 7 && b.size() < 7) { Poly cp; for (size_t i = a.size(); i-- > 0;) cp = add(mul(cp, b, P), a[i] ? Poly{ a[i] } : Poly(), P, false); PEQ(A(B), cp, "a(b(x))"); }
    });
}
PROP(high_degrees, 4000, 100000) { // everything but multiplication and division, at degrees of hundreds
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; auto a = gen(c, (int)c.range(30, 700), P), b = gen(c, c.coin() ? (int)a.size() : (int)c.range(30, 700), P); if (c.coin() && b.size() && b.size() == a.size()) { b = a; if (c.coin()) { auto& x = b[c.below(b.size())]; x = (x + 1) % P; b = trim(b); } } u64 s = c.below(P), x = c.below(P); c.show("size a", a.size()); c.show("size b", b.size()); SHOW(s); SHOW(x); c.nontrivial(a.size() > 50);
        auto A = mkp(mk, a, (int)c.below(3)), B = mkp(mk, b, (int)c.below(3)); PEQ(A + B, add(a, b, P, false), "a + b"); PEQ(A - B, add(a, b, P, true), "a - b"); PEQ(-A, add({}, a, P, true), "-a"); auto as = a; for (auto& y : as) y = ref::mulmod(y, s, P); PEQ(A * mk(s), trim(as), "a * s"); if (s) PEQ((A * mk(s)) / mk(s), a, "a * s / s");
        int cm = 0; for (size_t k = std::max(a.size(), b.size()); k-- > 0 && !cm;) { u64 u = k < a.size() ? a[k] : 0, v = k < b.size() ? b[k] : 0; cm = u < v ? -1 : u > v; } CHECK_EQ(polynom<R>::cmp(A, B), cm); CHECK_EQ(A == B, cm == 0); CHECK_EQ(A < B, cm < 0); CHECK_EQ(A.deg(), a.empty() ? 0 : (int)a.size() - 1); auto ra = a; std::reverse(ra.begin(), ra.end()); PEQ(A.reverse(), trim(ra), "reverse");
        CHECK_EQ((u64)A(mk(x)).v, ev(a, x, P)); CHECK_EQ((u64)A.eval(mk(x)).v, ev(a, x, P)); Poly d; for (size_t k = 1; k < a.size(); k++) d.push_back(ref::mulmod(a[k], k % P, P)); PEQ(A.derivative(), trim(d), "derivative"); if (P > 1000) { auto I = A.integral(mk(s)); CHECK_EQ((u64)I[0].v, s); PEQ(I.derivative(), a, "derivative of the integral"); }
        int sh = (int)c.range(0, 300); Poly xs(sh, 0), m = a; xs.push_back(1 % P); m.insert(m.begin(), sh, 0); auto X = mkp(mk, xs); PEQ(A * X, trim(m), "a * x^n"); PEQ((A * X) / X, a, "a * x^n / x^n"); Poly lo(a.begin(), a.begin() + std::min<size_t>(sh, a.size())), hi(a.begin() + std::min<size_t>(sh, a.size()), a.end()); PEQ(A % X, trim(lo), "a % x^n"); PEQ(A / X, trim(hi), "a / x^n");
    });
}
PROP(division_and_inverse, 20000, 500000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; bool big = c.chance(1, 40); auto q = gen(c, big ? (int)c.range(1, 300) : c.len(0, 12), P), b = gen(c, big ? (int)c.range(60, 320) : (int)c.range(1, 12), P), r = gen(c, (int)c.range(0, b.empty() ? 0 : (i64)b.size() - 1), P); if (b.empty()) b = { 1 }; if (r.size() >= b.size()) r.clear(); if (c.chance(1, 8)) { std::fill(b.begin(), b.end(), 0); b.back() = c.coin() ? 1 : 1 + c.below(P - 1); } c.show("q", q); c.show("b", b); c.show("r", r); c.nontrivial(q.size() > 1 && b.size() > 1); c.label("above the Hensel threshold", q.size() + b.size() > 280 && b.size() > 220); c.label("divisor is a monomial", b.size() > 1 && std::count(b.begin(), b.end(), 0) == (long)b.size() - 1);
        auto a = add(mul(q, b, P), r, P, false); auto A = mkp(mk, a, (int)c.below(3)), B = mkp(mk, b, (int)c.below(3)); PEQ(A / B, q, "a / b"); PEQ(A % B, r, "a % b"); { auto t = A; t /= B; PEQ(t, q, "a /= b"); t = A; t %= B; PEQ(t, r, "a %= b"); PEQ((A / B) * B + A % B, a, "a / b * b + a % b"); }
        if (a.size() >= b.size() && !a.empty()) { polynom<R> l, h; auto A1 = mkp(mk, a); auto B1 = mkp(mk, b); polynom<R>::quot_rem_long(l, A1, B1); polynom<R>::quot_rem_hensel(h, A1, B1); Poly w = r; w.resize(b.size() - 1, 0); w.insert(w.end(), q.begin(), q.end()); PEQ(l, trim(w), "quot_rem_long"); PEQ(h, trim(w), "quot_rem_hensel"); auto A2 = A1; polynom<R>::quot_rem_long(A2, A2, B1); PEQ(A2, trim(w), "quot_rem_long in place"); A2 = A1; polynom<R>::quot_rem_hensel(A2, A2, B1); PEQ(A2, trim(w), "quot_rem_hensel in place"); }
        int L = (int)c.range(1, big ? 200 : 25); c.show("L", L); if (!b.empty() && b[0] != 0) { auto I = B.inverse(L); Poly i = val(I), p = mul(i, b, P); CHECK_MSG((int)i.size() <= L, "inverse has degree " << i.size() - 1 << " for L=" << L); p.resize(std::min<size_t>(p.size(), L)); p = trim(p); CHECK_MSG(p == Poly{ 1 }, "b * inverse(b) = " << pbt::show(p)); } else PEQ(B.inverse(L), Poly(), "inverse when there is none");
        // gcd: divides both, and is a combination
        if (!big && q.size() < 8) { auto g0 = gen(c, (int)c.range(1, 5), P); if (g0.empty()) g0 = { 1 }; auto x = mul(a, g0, P), y = mul(b, g0, P); if (x.empty()) return; auto X = mkp(mk, x), Y = mkp(mk, y); auto g = gcd(X, Y); PEQ(X % g, Poly(), "a % gcd"); PEQ(Y % g, Poly(), "b % gcd"); PEQ(g % mkp(mk, g0), Poly(), "gcd % common factor"); polynom<R> s, t; auto e = gcd_ex(X, Y, &s, &t); PEQ(X * s + Y * t, val(e), "Bezout"); CHECK_EQ(val(e).size(), val(g).size()); }
    });
}
template<typename K, typename R> static void check_product(Ctx& c, const K& mk, u64 P, const Poly& a, const Poly& b, const std::vector<R>& r, int lr, const char* what) {
    auto coef = [&](int k) { u64 s = 0; for (int i = std::max(0, k - (int)b.size() + 1); i <= k && i < (int)a.size(); i++) s = addm(s, ref::mulmod(a[i], b[k - i], P), P); return s; };
    std::vector<int> ks{ 0, lr, lr / 2 }; for (int i = 0; i < 4; i++) ks.push_back((int)(((u64)i * 2654435761u + a.size() * 40503u + b.size()) % (lr + 1))); if (lr < 300) for (int k = 0; k <= lr; k++) ks.push_back(k);
    for (int k : ks) { u64 e = coef(k); CHECK_MSG((u64)r[k].v == e, what << ": coefficient " << k << " is " << (u64)r[k].v << " expected " << e); }
    if (lr + 2 >= (int)(a.size() + b.size())) for (u64 x : { (u64)2 % P, P / 2 + 1, P - 2 }) { Poly v; for (int i = 0; i <= lr; i++) v.push_back((u64)r[i].v); u64 e = ref::mulmod(ev(a, x, P), ev(b, x, P), P); CHECK_MSG(ev(v, x, P) == e, what << ": value at " << x << " differs"); }
}
// each multiplication algorithm, directly and in place, for all shapes 0 <= l2 <= l1 <= lr <= l1 + l2
PROP(multiplication_algorithms, 30000, 750000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; typedef polynom<R> PL; typedef polynom_mul<R> PM; int sz = c.chance(1, 12) ? 900 : c.chance(1, 4) ? 150 : 40; int l1 = (int)c.range(0, sz), l2 = (int)c.range(0, l1), lr = c.coin() ? l1 + l2 : (int)c.range(l1, l1 + l2); Poly a = gen(c, l1 + 1, P), b = gen(c, l2 + 1, P); a.resize(l1 + 1, 0); b.resize(l2 + 1, 0); c.show("l1", l1); c.show("l2", l2); c.show("lr", lr); c.show("a", a); c.show("b", b); c.nontrivial(l2 > 1); int alg = (int)c.below(6), alias = (int)c.below(4); c.show("algorithm", alg); c.show("alias", alias); if (alg >= 2 && alg <= 4 && P > 0xFFFFFFFFull) alg = 5; if (alg == 3 && P > 0xFFFFFFFFull) return;
        if (alias == 3) { b = a; l2 = l1; if (lr > l1 + l2) lr = l1 + l2; lr = std::max(lr, l1); }
        std::vector<R> A, B; for (u64 x : a) A.push_back(mk(x)); for (u64 x : b) B.push_back(mk(x)); std::vector<R> r(lr + 1, mk(1 % P)); R *pa = A.data(), *pb = B.data(), *pr = r.data(); if (alias == 1 || alias == 3) { A.resize(lr + 1, mk(0)); pa = pr = A.data(); if (alias == 3) pb = pa; } else if (alias == 2) { B.resize(lr + 1, mk(0)); pb = pr = B.data(); }
        const char* names[] = { "_mul_long", "_mul_karatsuba", "_mul_fft", "_mul_fft_big", "_mul_fft_crt", "impl" };
        switch (alg) { case 0: PL::_mul_long(pr, lr, pa, l1, pb, l2); break; case 1: PL::_mul_karatsuba(pr, lr, pa, l1, pb, l2); break; case 2: PM::_mul_fft(pr, lr, pa, l1, pb, l2); break; case 3: PM::_mul_fft_big(pr, lr, pa, l1, pb, l2); break; case 4: PM::_mul_fft_crt(pr, lr, pa, l1, pb, l2); break; default: PM::impl(pr, lr, pa, l1, pb, l2); }
        check_product(c, mk, P, a, b, std::vector<R>(pr, pr + lr + 1), lr, names[alg]);
    });
}
PROP(multiplication_of_large_polynomials, 1500, 37500) {
    with_field(c, [&](auto mk, u64 P) {
        if (P == 2) return; int n1 = (int)c.range(400, c.thorough && c.chance(1, 30) ? 70000 : c.chance(1, 20) ? 9000 : 1600), n2 = (int)c.range(100, n1); if (n1 > 10000) n2 = std::min(n2, 40000); if (P > 0xFFFFFFFFull) n1 = std::min(n1, 1800), n2 = std::min(n2, 1700); auto a = gen(c, n1, P), b = gen(c, n2, P); c.show("n1", n1); c.show("n2", n2); c.nontrivial(a.size() > 450 && b.size() > 100); if (a.empty() || b.empty()) return; auto r = mkp(mk, a) * mkp(mk, b); int lr = (int)(a.size() + b.size()) - 2; CHECK_MSG(r.size() >= lr + 1, "size"); check_product(c, mk, P, a, b, r.c, lr, "operator *");
    });
}
PROP(multiplication_of_huge_polynomials, 110, 2750) {
    with_field(c, [&](auto mk, u64 P) {
        if (P < 1000 || P > 0xFFFFFFFFull) return; int t = c.chance(1, 3) ? (int)c.range(99990, 100010) : c.chance(1, 3) ? (int)c.range(131060, 131080) : (int)c.range(60000, 150000); int n2 = c.coin() ? t / 2 : (int)c.range(20000, t / 2), n1 = t - n2; u64 salt = c.below(0); int k1 = (int)c.below(3), k2 = (int)c.below(3); c.show("degree 1", n1); c.show("degree 2", n2); c.show("salt", salt); c.show("kinds", std::vector<int>{ k1, k2 }); c.nontrivial(); c.label("sum of degrees above 100000", t > 100000);
        auto fill = [&](int n, int k, u64 s) { Poly p(n + 1); for (int i = 0; i <= n; i++) { u64 z = s + i * 0x9e3779b97f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 32; p[i] = k == 0 ? P - 1 : k == 1 ? z % P : P - 1 - z % 7; } if (!p[n]) p[n] = 1; return p; }; auto a = fill(n1, k1, salt), b = fill(n2, k2, ~salt); auto r = mkp(mk, a) * mkp(mk, b); CHECK_EQ(r.deg(), n1 + n2); check_product(c, mk, P, a, b, r.c, n1 + n2, "operator *");
    });
}
// residues modulo an irreducible or arbitrary polynomial
PROP(residues_modulo_a_polynomial, 63000, 1575000) {
    with_field(c, [&](auto mk, u64 P) {
        typedef decltype(mk(1)) R; typedef moduloX<polynom<R>> PM; auto m = gen(c, (int)c.range(2, 9), P); if (m.size() < 2) m = { 1, 1 }; if (c.coin()) m.back() = 1; auto M = mkp(mk, m); auto a = gen(c, c.len(0, 12), P), b = gen(c, c.len(0, 12), P); c.show("m", m); c.show("a", a); c.show("b", b); c.nontrivial(m.size() > 2 && a.size() > 1);
        auto red = [&](Poly p) { u64 il = ref::powmod(m.back(), P - 2, P); while (p.size() >= m.size()) { u64 s = ref::mulmod(p.back(), il, P); size_t o = p.size() - m.size(); for (size_t i = 0; i < m.size(); i++) p[i + o] = subm(p[i + o], ref::mulmod(s, m[i], P), P); p = trim(p); } return p; };
        PM x(mkp(mk, a), M), y(mkp(mk, b), M); PEQ(x.v, red(a), "normalized"); PEQ((x + y).v, red(add(a, b, P, false)), "a + b"); PEQ((x - y).v, red(add(a, b, P, true)), "a - b"); PEQ((x * y).v, red(mul(a, b, P)), "a * b"); PEQ((-x).v, red(add({}, a, P, true)), "-a"); int e = (int)c.range(0, 40); Poly w = red({ 1 }); for (int i = 0; i < e; i++) w = red(mul(w, a, P)); PEQ(powT(x, e).v, w, "a ^ e");
        auto g = gcd(mkp(mk, red(a)), M); if (!red(a).empty() && g.deg() == 0) { PEQ((x.inv() * x).v, Poly{ 1 }, "a * inverse(a)"); PEQ((y / x * x).v, red(b), "b / a * a"); c.label("invertible"); }
    });
}
PROP(integer_and_fraction_coefficients, 430000, 10750000) {
    typedef polynom<i64> PI; typedef polynom<fraction<i64>> PQ; auto g = [&](int lo, int hi) { std::vector<i64> v((size_t)c.range(lo, hi)); for (auto& x : v) x = c.range(-9, 9); return v; }; auto q = g(1, 6), b = g(1, 6); b.push_back(c.coin() ? 1 : -1); auto r = g(0, (int)b.size() - 1); while (r.size() >= b.size()) r.pop_back(); SHOW(q); SHOW(b); SHOW(r); c.nontrivial(q.size() > 1 && b.size() > 2);
    std::vector<i64> a(q.size() + b.size() - 1, 0); for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < b.size(); j++) a[i + j] += q[i] * b[j]; CHECK(PI(q) * PI(b) == PI(a)); for (size_t i = 0; i < r.size(); i++) a[i] += r[i]; PI A(a), B(b); PI rr = r.empty() ? PI(0) : PI(r); CHECK_EQ((A / B).c.empty() ? std::vector<i64>{} : (A / B).c, [&] { auto t = PI(q); return t.shrink_to_fit().c; }().size() == (A / B).c.size() ? [&] { auto t = PI(q); return t.shrink_to_fit().c; }() : (A / B).c); CHECK(A / B == PI(q)); CHECK(A % B == rr); i64 x = c.range(-5, 5), e = 0, p = 1; for (i64 k : a) e += k * p, p *= x; CHECK_EQ(A(x), e); CHECK_EQ((A - B).eval(x), e - B(x)); std::vector<i64> d{ 0 }; for (size_t i = 1; i < a.size(); i++) { if (i == 1) d.clear(); d.push_back(a[i] * (i64)i); } CHECK(A.derivative() == PI(d));
    // exact division of fractions
    if (q.size() < 4 && b.size() < 4) { PQ fq, fb; fq.c.clear(); fb.c.clear(); for (i64 k : q) fq.c.push_back(fraction<i64>(k, c.range(1, 3))); for (i64 k : b) fb.c.push_back(fraction<i64>(k)); PQ fa = fq * fb; CHECK(fa / fb == fq); CHECK((fa % fb) == PQ(0)); }
    // discrete integral
    { std::vector<i64> s = g(1, 5); PQ f; f.c.clear(); for (i64 k : s) f.c.push_back(fraction<i64>(k)); auto S = polynom_sum(f); i64 n = c.range(0, 6), t = 0; for (i64 k = 1; k <= n; k++) t += PI(s)(k); auto v = S(fraction<i64>(n)); CHECK_MSG(v.p == t * v.q, "polynom_sum at " << n << ": " << v.p << "/" << v.q << " expected " << t); }
}
PROP(zeros_of_real_polynomials, 180000, 4500000) {
    int n = (int)c.range(1, 5); std::vector<int> z(n); for (auto& x : z) x = (int)c.range(-8, 8); std::sort(z.begin(), z.end()); bool simple = std::unique(z.begin(), z.end()) == z.end(); std::sort(z.begin(), z.end()); if (!simple) { z.erase(std::unique(z.begin(), z.end()), z.end()); n = (int)z.size(); } int k = (int)c.range(1, 3); if (c.coin()) k = -k; SHOW(z); SHOW(k); c.nontrivial(n > 1);
    polynom<double> p{ (double)k }; for (int x : z) p *= polynom<double>{ -(double)x, 1.0 }; bool quad = c.coin(); if (quad) p *= polynom<double>{ (double)c.range(1, 20), 0.0, 1.0 }; { auto rd = find_zeros<double, double>(p, 1e4), re = find_zeros<double, double>(p, 1e4, 0.0, 0.0, 0.0, 200); CHECK_EQ(rd, re); for (double x : rd) CHECK_MSG(p(x) == 0, "without a tolerance only exact zeros are reported"); } auto r = find_zeros<double, double>(p, 1e4, 1e-5); std::vector<double> got(r.begin(), r.end()); SHOW(got); for (int t : z) { bool f = false; for (double x : got) f |= std::abs(x - t) < 1e-6; CHECK_MSG(f, "zero " << t << " is not found"); } for (double x : got) { bool f = false; for (int t : z) f |= std::abs(x - t) < 1e-4; CHECK_MSG(f, x << " is reported but is no zero"); }
    // monotonic search for an arbitrary value
    polynom<double> m{ (double)c.range(-20, 20), (double)c.range(1, 5), 0.0, (double)c.range(0, 3) }; if (c.coin()) m = m * -1.0; double x0 = (double)c.range(-40, 40) / 4, y = m(x0); SHOW(x0); SHOW(y); c.label("value other than zero", y != 0); double x = monotonic_search(m, -20.0, 20.0, y); CHECK_MSG(std::abs(x - x0) < 1e-6, "monotonic_search for " << y << ": " << x << " expected " << x0);
    double x2 = monotonic_search(m, x0, 20.0, y); CHECK_MSG(std::abs(x2 - x0) < 1e-6, "monotonic_search from the argument itself: " << x2);
}

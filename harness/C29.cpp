// C29: fraction<T> is the field of rational numbers in lowest terms with positive denominator. Oracles: 128-bit cross products and GMP's rationals.
#include "pbt.h"
#include <gmpxx.h>
#include "altruct/algorithm/math/base.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/matrix.h"
using namespace altruct::math;
// an integer type of any size; truncating division like the machine types
struct BZ { mpz_class v; BZ(int x = 0) : v(x) {} BZ(const mpz_class& v) : v(v) {} 
    BZ operator-() const { return BZ(mpz_class(-v)); }
#define OP(o) BZ& operator o##=(const BZ& r) { v o##= r.v; return *this; } BZ operator o(const BZ& r) const { return BZ(mpz_class(v o r.v)); }
    OP(+) OP(-) OP(*) OP(/) OP(%)
#undef OP
#define OP(o) bool operator o(const BZ& r) const { return v o r.v; }
    OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
#undef OP
};
typedef BZ mpz; typedef mpq_class mpq;
typedef __int128 L; typedef unsigned __int128 U;
static L g128(L a, L b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { L t = a % b; a = b; b = t; } return a; }
static std::string str(L v) { if (v < 0) return "-" + str(-v); std::string s; do s.insert(s.begin(), char('0' + (int)(v % 10))), v /= 10; while (v); return s; }
static std::string Q(L p, L q) { L g = g128(p, q); if (q < 0) g = -g; return str(p / g) + "/" + str(q / g); }
template<class T> static std::string S(const fraction<T>& f) { return str((L)f.p) + "/" + str((L)f.q); }
static std::string S(const fraction<mpz>& f) { return f.p.v.get_str() + "/" + f.q.v.get_str(); }
template<class T> static std::string raw(const T& f) { return S(f); }
// operands for which every unreduced numerator and denominator fits
template<class T> static T num(pbt::Ctx& c, T lim) { switch (c.below(4)) { case 0: return (T)c.range(-6, 6); case 1: return (T)c.range(-lim, lim); case 2: { T v = lim - (T)c.range(0, 3); return c.coin() ? v : -v; } default: return (T)(c.range(-lim / 60, lim / 60) * 60); } }
template<class T> static T den(pbt::Ctx& c, T lim) { T q = num(c, lim); return q ? q : 1; }
template<class T> static void words(pbt::Ctx& c, T lim) {
    typedef fraction<T> F; T a = num(c, lim), b = den(c, lim), p = num(c, lim), q = den(c, lim); if (c.chance(1, 6)) { T k = (T)c.range(1, 5) * (c.coin() ? 1 : -1); if ((L)a * k <= lim && (L)a * k >= -lim && (L)b * k <= lim && (L)b * k >= -lim) p = a * k, q = b * k; } if (c.chance(1, 10)) p = b, q = a ? a : 1; SHOW(a); SHOW(b); SHOW(p); SHOW(q);
    F f(a, b), g(p, q); CHECK_EQ(S(f), Q(a, b)); CHECK_EQ(S(g), Q(p, q)); L A = f.p, B = f.q, P = g.p, D = g.q; CHECK_EQ(S(F(a)), str(a) + "/1"); CHECK_EQ(S(F()), std::string("0/1")); F h = a; CHECK_EQ(S(h), str(a) + "/1");
    CHECK_EQ(S(f + g), Q(A * D + P * B, B * D)); CHECK_EQ(S(f - g), Q(A * D - P * B, B * D)); CHECK_EQ(S(f * g), Q(A * P, B * D)); CHECK_EQ(S(-f), Q(-A, B)); CHECK_EQ(S(f % g), std::string("0/1"));
    if (P) { CHECK_EQ(S(f / g), Q(A * D, B * P)); CHECK_EQ(S(g.reciprocal()), Q(D, P)); CHECK(f / g == f * g.reciprocal()); F t = f; CHECK(&(t /= g) == &t); CHECK_EQ(S(t), Q(A * D, B * P)); }
    { F t = f; CHECK(&(t += g) == &t); CHECK_EQ(S(t), Q(A * D + P * B, B * D)); t = f; CHECK(&(t -= g) == &t); CHECK_EQ(S(t), Q(A * D - P * B, B * D)); t = f; CHECK(&(t *= g) == &t); CHECK_EQ(S(t), Q(A * P, B * D)); t = f; CHECK(&(t %= g) == &t); CHECK_EQ(S(t), std::string("0/1")); }
    { F t = f; t += t; CHECK_EQ(S(t), Q(2 * A, B)); t = f; t -= t; CHECK_EQ(S(t), std::string("0/1")); t = f; t *= t; CHECK_EQ(S(t), Q(A * A, B * B)); if (A) { t = f; t /= t; CHECK_EQ(S(t), std::string("1/1")); } }
    L d = A * D - P * B; CHECK_EQ(f == g, d == 0); CHECK_EQ(f != g, d != 0); CHECK_EQ(f < g, d < 0); CHECK_EQ(f > g, d > 0); CHECK_EQ(f <= g, d <= 0); CHECK_EQ(f >= g, d >= 0); L m = f.cmp(g); CHECK((m < 0) == (d < 0) && (m > 0) == (d > 0)); CHECK(f == f && f <= f && f >= f && !(f < f) && !(f > f) && !(f != f));
    CHECK_EQ(S(zeroOf(f)), std::string("0/1")); CHECK_EQ(S(identityOf(f)), std::string("1/1")); T s = (T)c.range(-5, 5); CHECK_EQ(S(f + F(s)), Q(A + s * B, B)); c.nontrivial(B > 1 && D > 1 && A && P); c.label("common factor", g128(B, D) > 1); c.label("equal", d == 0);
}
PROP(machine_integers, 420000, 10500000) { switch (c.below(4)) { case 0: words<int>(c, 32767); break; case 1: words<int64_t>(c, 2147483647); break; case 2: words<int64_t>(c, 1000); break; default: words<L>(c, (L)4000000000000000000ll); } }
// sums and products whose partial results are close to the limit only when kept reduced
PROP(telescoping, 840000, 21000000) {
    typedef fraction<int64_t> F; int n = (int)c.range(1, 200); int64_t k = c.range(1, 1000); SHOW(n); SHOW(k); F s(0), t(1), u(0); for (int i = 0; i < n; i++) { int64_t a = k + i; s += F(1, a * (a + 1)); u = u + F(1, a) - F(1, a + 1); t *= F(a + 1, a); } CHECK_EQ(S(s), Q(n, k * (k + n))); CHECK_EQ(S(u), S(s)); CHECK_EQ(S(t), Q(k + n, k)); F v(k + n, k); for (int i = n; i-- > 0;) v /= F(k + i + 1, k + i); CHECK_EQ(S(v), std::string("1/1")); c.nontrivial(n > 3);
    int64_t p = c.range(-50, 50), q = c.range(1, 50); int e = (int)c.range(0, 7); L a = 1, b = 1; F f(p, q); for (int i = 0; i < e; i++) a *= f.p, b *= f.q; CHECK_EQ(S(powT(f, e)), Q(a, b));
}
static mpz_class bigz(pbt::Ctx& c, int bits) { mpz_class r = 0; int n = (int)c.range(0, bits); for (int i = 0; i < n; i += 32) { r <<= 32; r += (unsigned long)(uint32_t)c.any<uint32_t>(); } if (c.chance(1, 4)) r = (int)c.range(0, 4); return c.coin() ? mpz_class(-r) : r; }
static std::string S(const mpq& q) { return q.get_num().get_str() + "/" + q.get_den().get_str(); }
PROP(long_integers, 34000, 850000) {
    typedef fraction<mpz> F; auto mk = [&](F& f, mpq& q) { mpz_class a = bigz(c, 200), b = bigz(c, 200); if (b == 0) b = 1; if (c.chance(1, 3)) { mpz_class k = bigz(c, 90); if (k != 0) { a *= k; b *= k; } } c.show("p", a.get_str()); c.show("q", b.get_str()); f = F(mpz(a), mpz(b)); q = mpq(a, b); q.canonicalize(); CHECK_EQ(S(f), S(q)); };
    F f(mpz(0)), g(mpz(0)); mpq x, y; mk(f, x); int steps = (int)c.range(1, 6); for (int i = 0; i < steps; i++) { if (c.chance(1, 5)) { g = f; y = x; } else mk(g, y); int op = (int)c.below(5); bool in = c.coin(); c.show("op", op); if (op == 3 && y == 0) op = 0; mpq z; switch (op) { case 0: z = x + y; if (in) f += g; else f = f + g; break; case 1: z = x - y; if (in) f -= g; else f = f - g; break; case 2: z = x * y; if (in) f *= g; else f = f * g; break; case 3: z = x / y; if (in) f /= g; else f = f / g; break; default: z = -x; f = -f; } x = z; CHECK_EQ(S(f), S(x)); int r = cmp(x, y); CHECK_EQ(f < g, r < 0); CHECK_EQ(f == g, r == 0); CHECK_EQ(f >= g, r >= 0); if (mpz_sizeinbase(f.q.v.get_mpz_t(), 2) > 4000) break; } c.nontrivial(steps > 1 && f.q > 1); c.label("exceeds 64 bits", mpz_sizeinbase(f.q.v.get_mpz_t(), 2) > 64);
}
// the generic algorithms see a field
PROP(as_a_field, 6400, 160000) {
    typedef fraction<mpz> F; auto rnd = [&](int m) { return F(mpz((int)c.range(-m, m)), mpz((int)c.range(1, m))); }; int k = (int)c.range(1, 4); std::vector<F> xs; for (int i = 0; i < k; i++) { F r = rnd(9); c.show("root", S(r)); xs.push_back(r); } typedef polynom<F> P; P p{ F(mpz(1)) }; for (auto& r : xs) p = p * P{ -r, F(mpz(1)) }; for (auto& r : xs) CHECK_EQ(S(p.eval(r)), std::string("0/1")); F t = rnd(20), e(mpz(1)); for (auto& r : xs) e *= t - r; CHECK_EQ(S(p.eval(t)), S(e)); P q = p / P{ -xs[0], F(mpz(1)) }, r = p % P{ -xs[0], F(mpz(1)) }; CHECK(q * P{ -xs[0], F(mpz(1)) } == p); CHECK_EQ(r.deg(), 0); CHECK_EQ(S(r[0]), std::string("0/1"));
    matrix<F> m(2, 2, F(mpz(0))); for (int i = 0; i < 4; i++) m[i / 2][i % 2] = rnd(9); F d = m[0][0] * m[1][1] - m[0][1] * m[1][0]; CHECK_EQ(S(m.det()), S(d)); if (S(d) != "0/1") { auto id = m * m.inverse(); for (int i = 0; i < 4; i++) CHECK_EQ(S(id[i / 2][i % 2]), std::string(i / 2 == i % 2 ? "1/1" : "0/1")); } c.nontrivial(k > 1); c.label("regular", S(d) != "0/1");
}

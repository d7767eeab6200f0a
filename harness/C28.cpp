// C28: the bridge to GMP. GMP itself (mpz arithmetic, an external library) is the oracle for its own numbers; __int128 for machine words.
#include "pbt.h"
#include "altruct/algorithm/math/gmp_helpers.h"
#include "altruct/algorithm/math/base.h"
#include <sstream>
using namespace altruct::math;
typedef __int128 L; typedef moduloX<mpz> modz; typedef modulo<mpz, 1> smod;
static std::string S(const mpz& x) { return x.get_str(); }
static mpz Z(L v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; mpz r((unsigned long)(u >> 64)); r <<= 64; r += mpz((unsigned long)u); return n ? mpz(-r) : r; }
static mpz big(pbt::Ctx& c, int maxbits) { // sign and magnitude; runs of equal bits around word boundaries are common
    mpz r = 0; int k = (int)c.weighted({ 2, 3, 3 }); int bits = (int)c.range(0, maxbits);
    if (k == 0) r = Z(c.any<int64_t>()); else if (k == 1) { for (int i = 0; i < bits; i += 32) { r <<= 32; r += (unsigned long)(uint32_t)c.any<uint32_t>(); } } else { r = 1; r <<= bits; r += (int)c.range(-2, 2); }
    return c.coin() ? mpz(-r) : r;
}
static mpz pos(pbt::Ctx& c, int maxbits) { mpz r = big(c, maxbits); if (r < 0) r = -r; return r + 1; }
static mpz mod(const mpz& x, const mpz& m) { mpz r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); return r; }
template<typename I> static void cast1(pbt::Ctx& c) {
    I v = c.any<I>(); SHOW((long long)v); mpz z = Z((L)v); CHECK_EQ(castOf<I>(z), v); mpz w = z; int sh = (int)c.range(64, 200); mpz t = big(c, 100); w += t << sh; c.show("w", S(w)); CHECK_EQ(castOf<I>(w), v); // reduction modulo a power of two, like every integer conversion
}
PROP(casts, 520000, 13000000) {
    switch (c.below(6)) { case 0: cast1<int>(c); break; case 1: cast1<unsigned>(c); break; case 2: cast1<long>(c); break; case 3: cast1<unsigned long>(c); break; case 4: cast1<long long>(c); break; default: cast1<unsigned long long>(c); }
    int64_t a = c.any<int64_t>(); uint64_t b = (uint64_t)c.any<int64_t>(); SHOW(a); SHOW(b); CHECK_EQ(S((castOf<mpz, long long>(a))), S(Z(a))); CHECK_EQ(S((castOf<mpz, unsigned long long>(b))), S(Z((L)b))); CHECK_EQ(S(int64_to_mpz(a)), std::to_string(a)); CHECK_EQ(mpz_to_int64(int64_to_mpz(a)), a);
    int d = (int)c.range(-1000000, 1000000); SHOW(d); mpf f = d; f /= 4; CHECK_EQ(S((castOf<mpz, mpf>(f))), std::to_string(d / 4)); CHECK_EQ(f_int(f), d / 4); c.nontrivial(a < 0 || (int64_t)b < 0); c.label("beyond 32 bits", a != (int32_t)a);
}
PROP(machine_words, 690000, 17250000) {
    int64_t m = c.any<int64_t>(); if (m < 0) m = ~m; if (m == 0) m = 1; int64_t x = c.any<int64_t>(), y = c.any<int64_t>(); bool nn = c.chance(3, 4); if (nn) { x = x < 0 ? ~x : x; y = y < 0 ? ~y : y; } SHOW(x); SHOW(y); SHOW(m);
    CHECK_EQ(z_mulmod(x, y, m), (int64_t)((L)x * y % m)); int64_t e = y < 0 ? ~y : y; L r = 1 % m, b = ((L)x % m + m) % m; for (int64_t t = e; t; t >>= 1) { if (t & 1) r = r * b % m; b = b * b % m; } CHECK_EQ(z_powmod(x, e, m), (int64_t)r);
    mpz big1 = Z(x); CHECK_EQ(S(mpz(big1 % m)), S(Z((L)x % m))); CHECK_EQ(S(mpz(y % Z(m))), S(Z((L)y % m))); c.nontrivial(x > INT32_MAX || y > INT32_MAX || x < 0); c.label("product within 64 bits", (L)x * y == (int64_t)((L)x * y));
}
static bool prime_slow(int64_t n) { if (n < 2) return false; for (int64_t d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
PROP(primes, 1500000, 37500000) { int64_t n = c.coin() ? (int64_t)c.below(200) : (int64_t)c.below(1000000); SHOW(n); bool p = prime_slow(n); CHECK_EQ(is_prime(n, 20) != 0, p); CHECK_EQ(is_prime(Z(n), 20) != 0, p); int64_t q = n + 1; while (!prime_slow(q)) q++; CHECK_EQ(next_prime(n), q); c.nontrivial(n > 200); c.label("prime", p); }
PROP(integer_functions, 16000, 400000) {
    mpz a = big(c, 300), b = big(c, 200); c.show("a", S(a)); c.show("b", S(b)); mpz aa = a < 0 ? mpz(-a) : a; CHECK_EQ(S(z_abs(a)), S(aa)); CHECK_EQ(S(absT(a)), S(aa)); CHECK_EQ(S(z_sq(a)), S(mpz(a * a))); CHECK_EQ(S(z_cb(a)), S(mpz(a * a * a)));
    if (b != 0) { mpz q = z_div_floor(a, b), u = z_div_ceil(a, b); mpz r = a - q * b, s = u * b - a; bool bp = b > 0; CHECK_MSG(bp ? r >= 0 && r < b : r <= 0 && r > b, "floor remainder " << S(r)); CHECK_MSG(bp ? s >= 0 && s < b : s <= 0 && s > b, "ceil remainder " << S(s)); }
    mpz g = z_gcd(a, b); if (a != 0 || b != 0) { CHECK_MSG(g > 0 && a % g == 0 && b % g == 0, "gcd " << S(g)); mpz x, y, e = gcd_ex<mpz>(a, b, &x, &y); CHECK_EQ(S(z_abs(e)), S(g)); CHECK_EQ(S(mpz(a * x + b * y)), S(e)); CHECK_EQ(S(z_abs(gcd<mpz>(a, b))), S(g)); CHECK_EQ(S(z_abs(z_lcm(a, b))), S(mpz(z_abs(a) * z_abs(b) / g))); }
    mpz r = z_sqrt(aa); CHECK_MSG(r * r <= aa && (r + 1) * (r + 1) > aa, "sqrt " << S(r)); CHECK_EQ(S(sqrtT<mpz>(aa)), S(r)); mpz rc = z_sqrtc(aa); CHECK_MSG(rc * rc >= aa && (rc == 0 || (rc - 1) * (rc - 1) < aa), "sqrtc " << S(rc)); CHECK_EQ(is_square<mpz>(aa), mpz(r * r) == aa); mpz sq = aa * aa; CHECK_EQ(is_square<mpz>(sq), true); CHECK_EQ(S(sqrtT<mpz>(sq)), S(aa));
    int n = (int)c.range(1, 9); SHOW(n); mpz k = z_root(aa, n); mpz k1 = k + 1; CHECK_MSG(z_pow(k, n) <= aa && z_pow(k1, n) > aa, "root " << S(k)); mpz p = 1; for (int i = 0; i < n; i++) p *= a; CHECK_EQ(S(z_pow(a, n)), S(p)); CHECK_EQ(S(powT<mpz>(a, n)), S(p));
    int i = (int)c.range(0, 320); mpz sh; mpz_fdiv_q_2exp(sh.get_mpz_t(), a.get_mpz_t(), i); CHECK_EQ(z_testbit(a, i), (int)(mod(sh, 2) == 1));
    mpz h = cbrtT<mpz>(aa), h1 = h + 1; CHECK_MSG(cbT(h) <= aa && cbT(h1) > aa, "cbrtT " << S(h)); mpz cu = aa * aa * aa; CHECK_EQ(S(cbrtT<mpz>(cu)), S(aa)); mpz cm = cu - 1; if (aa > 0) CHECK_EQ(S(cbrtT<mpz>(cm)), S(mpz(aa - 1)));
    c.nontrivial(aa > mpz("18446744073709551616") && b != 0);
}
template<typename M> static void ring(pbt::Ctx& c, const mpz& m, const mpz& a, const mpz& b, const M& x, const M& y) {
    const mpz am = mod(a, m), bm = mod(b, m); CHECK_EQ(S(x.v), S(am)); CHECK_EQ(S(y.v), S(bm)); CHECK_EQ(S((x + y).v), S(mod(a + b, m))); CHECK_EQ(S((x - y).v), S(mod(a - b, m))); CHECK_EQ(S((-x).v), S(mod(-a, m))); CHECK_EQ(S((x * y).v), S(mod(a * b, m))); M t = x; t *= t; CHECK_EQ(S(t.v), S(mod(a * a, m))); t = x; t += t; CHECK_EQ(S(t.v), S(mod(a + a, m))); t = x; t -= t; CHECK_EQ(S(t.v), "0");
    CHECK_EQ(x == y, am == bm); CHECK_EQ(x < y, am < bm); CHECK_EQ(S(identityOf(x).v), S(mod(1, m))); CHECK_EQ(S(zeroOf(x).v), "0");
    mpz g; mpz_gcd(g.get_mpz_t(), bm.get_mpz_t(), m.get_mpz_t()); if (g == 1 && m > 1) { mpz i = y.inv().v; CHECK_MSG(i >= 0 && i < m && mod(i * b, m) == 1, "inverse " << S(i)); CHECK_EQ(S(z_inverse(b, m)), S(i)); mpz q = (x / y).v; CHECK_MSG(q >= 0 && q < m && mod(q * b, m) == am, "quotient " << S(q)); } c.label("invertible", g == 1);
    mpz pr = am * bm; mpz prm = mod(pr, m); if (bm != 0) { M d = x; d.v = prm; mpz q = (d / y).v; CHECK_MSG(mod(q * b, m) == prm, "quotient of a multiple " << S(q)); } // solvable: the divisor need not be invertible
    int64_t e = c.chance(1, 3) ? c.any<int64_t>() : c.range(0, 100); if (e < 0) e = ~e; SHOW(e); mpz r = mod(1, m), s = am; for (int64_t k = e; k; k >>= 1) { if (k & 1) r = mod(r * s, m); s = mod(s * s, m); } CHECK_EQ(S(modulo_power<mpz>(x.v, e, m)), S(r)); CHECK_EQ(S(modulo_power<mpz>(x.v, Z(e), m)), S(r)); CHECK_EQ(S(z_powmod(a, Z(e), m)), S(r)); CHECK_EQ(S(powT(x, e).v), S(r)); CHECK_EQ(S(modT<mpz>(a, m)), S(am)); mpz trunc; mpz ab = a * b; mpz_tdiv_r(trunc.get_mpz_t(), ab.get_mpz_t(), m.get_mpz_t()); CHECK_EQ(S(z_mulmod(a, b, m)), S(trunc));
}
PROP(modular, 61000, 1525000) { mpz m = pos(c, 200), a = big(c, 260), b = big(c, 260); if (c.chance(1, 3)) { mpz k = pos(c, 40); m *= k; b *= k; } c.show("m", S(m)); c.show("a", S(a)); c.show("b", S(b)); if (c.coin()) ring<modz>(c, m, a, b, modz(a, m), modz(b, m)); else { smod::M() = m; ring<smod>(c, m, a, b, smod(a), smod(b)); } c.nontrivial(m > mpz("18446744073709551616")); }
PROP(streams, 760000, 19000000) { mpz a = big(c, 200); mpz b = pos(c, 100); std::ostringstream o, q; o << a; CHECK_EQ(o.str(), S(a)); mpq r(a, b); r.canonicalize(); q << r; CHECK_EQ(q.str(), r.get_str()); c.nontrivial(a < 0 || b != 1); }
PROP(floats, 1100000, 27500000) { // exact in the default 64-bit precision
    int64_t n = c.range(-(int64_t(1) << 50), int64_t(1) << 50); int s = (int)c.range(0, 6); SHOW(n); SHOW(s); mpf f = (double)n; f /= 1 << s; L d = L(1) << s; L fl = n >= 0 ? n / d : -((-(L)n + d - 1) / d), ce = n >= 0 ? (n + d - 1) / d : -(-(L)n / d); CHECK_EQ(mpf_get_d(f_floor(f).get_mpf_t()), (double)fl); CHECK_EQ(mpf_get_d(f_ceil(f).get_mpf_t()), (double)ce); CHECK_EQ(mpf_get_d(f_abs(f).get_mpf_t()), std::fabs((double)n) / d);
    int r = (int)c.range(0, 40000); CHECK_EQ(mpf_get_d(f_sqrt(r * r).get_mpf_t()), (double)r); CHECK_EQ(mpf_get_d(f_sqrt(mpf((double)r * r)).get_mpf_t()), (double)r); int k = (int)c.range(-12, 12), e = (int)c.range(0, 12); double p = 1; for (int i = 0; i < e; i++) p *= k; CHECK_EQ(mpf_get_d(f_pow(mpf(k), e).get_mpf_t()), p);
    mpf x; int prec = (int)c.range(64, 500); f_set(x, 7, prec); CHECK_MSG((int)x.get_prec() >= prec, "precision"); x /= 3; mpf y; f_set(y, x, 0); CHECK_MSG(y == x, "a copy keeps the precision"); c.nontrivial(n % d != 0);
}

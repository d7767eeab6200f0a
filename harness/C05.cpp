// C05: multiplicative orders, primitive roots, roots of unity, k-th roots, discrete logarithms.
#include "altruct/algorithm/math/modulos.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

static std::vector<i64> pfs(u64 n) { std::vector<i64> v; for (auto& f : ref::factor(n)) v.push_back(f.first); return v; }
static u64 order(u64 a, u64 m) { u64 k = ref::lambda(m); for (auto& f : ref::factor(k)) while (k % f.first == 0 && ref::powmod(a, k / f.first, m) == 1 % m) k /= f.first; return k; }
static u64 gen_unit(Ctx& c, u64 m) { for (int i = 0; i < 50; i++) { u64 a = c.urange(m > 1 ? 1 : 0, m - (m > 1)); if (ref::gcd(a, m) == 1) return a; } return 1 % m; }
// moduli with a primitive root
static u64 gen_cyclic(Ctx& c, u64 hi) {
    int t = c.weighted({ 1, 1, 8, 4, 4 });
    if (t == 0) return 2; if (t == 1) return 4;
    u64 p = ref::next_prime(c.uinteger(3, std::max<u64>(3, c.coin() ? 20 : hi / 4))); u64 m = p; if (t >= 3) for (int k = (int)c.range(0, 6); k-- > 0;) if (m * p <= hi / 2) m *= p;
    return t == 4 ? 2 * m : m;
}
template<typename T> static void ord_case(Ctx& c, u64 hi) {
    u64 m = c.uinteger(2, hi), a = gen_unit(c, m); SHOW(m); SHOW(a); u64 phi = ref::phi(m), lam = ref::lambda(m); c.nontrivial(a > 1 && a + 1 < m);
    bool l = c.coin(); u64 n = l ? lam : phi; auto f = pfs(n); u64 e = order(a, m);
    CHECK_EQ((u64)multiplicative_order<T, i64>((T)a, (T)m, (T)n, f), e);
    std::vector<T> ft(f.begin(), f.end()); CHECK_EQ((u64)multiplicative_order<T, T>((T)a, (T)m, (T)n, ft), e); c.label("proper divisor of lambda", e < lam);
    if (m < 400) { u64 k = 1, x = a % m; while (x != 1 % m) x = x * a % m, k++; CHECK_EQ(e, k); }
}
PROP(multiplicative_order_exact, 130000, 3250000) { if (c.coin()) ord_case<int>(c, c.coin() ? 500 : 2000000000); else ord_case<i64>(c, c.coin() ? 5000 : 1000000000000ll); }
PROP(primitive_roots, 650000, 16250000) {
    u64 m = gen_cyclic(c, c.coin() ? 500 : 100000000); SHOW(m); u64 phi = ref::phi(m); c.nontrivial(m > 6);
    i64 g = primitive_root<i64, i64>(m, phi, pfs(phi)); CHECK_MSG(g >= 1 && (u64)g < m && ref::gcd(g, m) == 1 && order(g, m) == phi, "g=" << g);
    if (m < 5000) { static prime_holder ph(5000); CHECK_EQ(primitive_root((int)m, ph), (int)g); }
}
PROP(primitive_roots_none, 67000, 1675000) {
    u64 m = c.uinteger(3, 3000); auto f = ref::factor(m); bool cyc = m == 4 || (f.size() == 1 && f[0].first != 2) || (f.size() == 2 && f[0].first == 2 && f[0].second == 1); c.assume(!cyc); SHOW(m); c.nontrivial();
    u64 phi = ref::phi(m); CHECK_EQ((primitive_root<int, i64>((int)m, (int)phi, pfs(phi))), 0);
}
PROP(root_of_unity_maximal_order, 650000, 16250000) {
    u64 m = c.uinteger(2, c.coin() ? 500 : 1000000); SHOW(m); u64 lam = ref::lambda(m); c.nontrivial(m > 6);
    i64 g = primitive_root_of_unity<i64>(m, lam, pfs(lam)); CHECK_MSG(g >= 1 && (u64)g < m && ref::gcd(g, m) == 1 && order(g, m) == lam, "g=" << g);
    if (m < 5000) { static prime_holder ph(5000); CHECK_EQ(primitive_root_of_unity((int)m, ph), (int)g); }
}
PROP(kth_roots_sets, 200000, 5000000) {
    u64 m = gen_cyclic(c, c.coin() ? 60 : 1200); u64 phi = ref::phi(m); u64 k = c.uinteger(1, c.coin() ? 12 : 2 * phi); i64 g = 0; for (u64 x = 1; x < m && !g; x++) if (ref::gcd(x, m) == 1 && order(x, m) == phi) g = x;
    for (u64 skip = c.range(0, 3), x = g + 1; skip && x < m; x++) if (ref::gcd(x, m) == 1 && order(x, m) == phi) g = x, skip--;
    u64 l = c.uinteger(0, phi - 1), n = ref::powmod(g, l, m); SHOW(m); SHOW(k); SHOW(g); SHOW(l); c.nontrivial(m > 6 && k > 1);
    std::set<i64> eu, en; for (u64 x = 0; x < m; x++) { if (ref::gcd(x, m) != 1) continue; u64 y = ref::powmod(x, k, m); if (y == 1 % m) eu.insert(x); if (y == n) en.insert(x); }
    c.label("no root", en.empty());
    CHECK_EQ(kth_roots_of_unity<i64>(m, k, phi, g), eu); CHECK_EQ(kth_roots<i64>(m, k, phi, g, l), en);
    std::set<int> iu(eu.begin(), eu.end()), in(en.begin(), en.end());
    static prime_holder ph(3000); CHECK_EQ(kth_roots_of_unity((int)m, (int)k, ph), iu); CHECK_EQ(kth_roots<int>(m, k, phi, g, l), in);
}
// a group of modular units (m) with b in or out of <a>
PROP(discrete_log_small_moduli, 320000, 8000000) {
    i64 m = c.uinteger(2, c.coin() ? 60 : 2000), a = gen_unit(c, m), b = c.coin() ? gen_unit(c, m) : (i64)ref::powmod(a, c.uinteger(0, m), m); SHOW(m); SHOW(a); SHOW(b);
    i64 e = -1; { i64 x = 1 % m; for (i64 k = 0; k < m; k++) { if (x == b) { e = k; break; } x = x * a % m; } } i64 o = order(a, m); c.nontrivial(a > 1 && b > 1); c.label("no logarithm", e < 0);
    CHECK_EQ(discrete_log_brute_force<i64>(a, b, m), e); CHECK_EQ(discrete_log_brute_force<int>(a, b, m), (int)e);
    i64 phi = ref::phi(m), lam = ref::lambda(m); i64 n = c.pick<i64>({ phi, lam, o }); auto ok = [&](i64 x) { return x >= 0 && (i64)ref::powmod(a, x, m) == b; };
    i64 x = discrete_log_baby_giant<i64>(a, b, m, n); if (e < 0) CHECK_EQ(x, (i64)-1); else CHECK_MSG(ok(x), "baby-giant with order bound " << n << " gave " << x);
    if (e < 0) return;
    i64 oo = -5; auto f = pfs(n); x = discrete_log<i64, i64>(a, b, m, n, f, &oo); CHECK_MSG(ok(x) && oo == o, "discrete_log gave " << x << ", order " << oo); CHECK_EQ(x, e);
    int oi = 0; CHECK_EQ((discrete_log<int, i64>(a, b, m, n, f, &oi)), (int)e); CHECK_EQ(oi, (int)o); CHECK_EQ((discrete_log<i64, i64>(a, b, m, n, f)), e);
    if (m > 2 && ref::is_prime(m)) { x = discrete_log_shanks<i64>(a, b, m); CHECK_MSG(ok(x), "shanks gave " << x); x = discrete_log_oddp<i64>(a, b, m); CHECK_MSG(ok(x), "oddp gave " << x); }
}
PROP(discrete_log_smooth_order, 19000, 475000) {
    // large prime with a smooth p - 1
    static std::vector<u64> ps; if (ps.empty()) for (u64 s : { 1ull << 20, 510510ull, 9699690ull, 6469693230ull, 200560490130ull, 1ull << 30, 4782969ull * 1024, 1220703125ull }) for (u64 k = 2; ps.size() < 400 && k < 400; k += 2) if (ref::is_prime(s * k + 1)) ps.push_back(s * k + 1);
    i64 p = c.pick(ps); i64 a = c.uinteger(1, p - 1), b = ref::powmod(a, c.uinteger(0, p), p); SHOW(p); SHOW(a); SHOW(b); c.nontrivial(a > 1 && b > 1); auto f = pfs(p - 1); i64 o = 0;
    i64 x = discrete_log<i64, i64>(a, b, p, p - 1, f, &o); CHECK_EQ((u64)o, order(a, p)); CHECK_MSG(x >= 0 && x < o && (i64)ref::powmod(a, x, p) == b, "x=" << x);
}
PROP(discrete_log_odd_prime, 24000, 600000) {
    i64 p = ref::next_prime(c.uinteger(3, c.coin() ? 3000 : 2000000)); i64 a = c.uinteger(1, p - 1), b = ref::powmod(a, c.uinteger(0, p), p); SHOW(p); SHOW(a); SHOW(b); c.nontrivial(a > 1 && b > 1);
    i64 x = discrete_log_oddp<i64>(a, b, p); CHECK_MSG(x >= 0 && (i64)ref::powmod(a, x, p) == b, "oddp x=" << x);
    x = discrete_log_shanks<i64>(a, b, p); CHECK_MSG(x >= 0 && (i64)ref::powmod(a, x, p) == b, "shanks x=" << x);
}
PROP(discrete_log_power_of_two, 29000, 725000) {
    int s = (int)c.range(1, 61); i64 m = 1ll << s; i64 a = c.uinteger(0, m - 1) | 1, b = ref::powmod(a, c.uinteger(0, m), m); SHOW(s); SHOW(a); SHOW(b); c.nontrivial(a > 1 && b > 1);
    i64 x = discrete_log_p2<i64>(a, b, s); CHECK_MSG(x >= 0 && (i64)ref::powmod(a, x, m) == b, "x=" << x);
    x = discrete_log_pp<i64>(a, b, 2, s); CHECK_MSG(x >= 0 && (i64)ref::powmod(a, x, m) == b, "pp x=" << x);
}
PROP(discrete_log_prime_power, 150000, 3750000) {
    i64 p = ref::next_prime(c.uinteger(3, c.coin() ? 30 : 3000)); int smax = 1; while (true) { u128 t = 1; for (int i = 0; i < 2 * (smax + 1) - 1; i++) { t *= p; if (t > INT64_MAX) break; } if (t > INT64_MAX) break; smax++; }
    int s = (int)c.range(1, smax); i64 m = ref::ipow(p, s); i64 a = gen_unit(c, m);
    if (c.chance(1, 3)) { i64 q = ref::ipow(p, (int)c.range(1, s)); a = (1 + q * (i64)c.uinteger(0, m / q)) % m; if (ref::gcd(a, m) != 1) a = 1; }
    i64 b = ref::powmod(a, c.uinteger(0, m), m); SHOW(p); SHOW(s); SHOW(a); SHOW(b); c.nontrivial(s > 1 && a > 1 && b > 1); c.label("a = 1 mod p", a % p == 1);
    i64 x = discrete_log_pp<i64>(a, b, p, s); CHECK_MSG(x >= 0 && (i64)ref::powmod(a, x, m) == b, "x=" << x);
    // the same through the group of order p^k
    i64 n = ref::phi(m) / (p - 1); i64 a2 = ref::powmod(a, p - 1, m), b2 = ref::powmod(b, p - 1, m); typedef moduloX<i64> modx;
    x = discrete_log_order_pp_g<modx, i64>(modx(a2, m), modx(b2, m), p, s - 1 + (int)c.range(0, 0)); (void)n; CHECK_MSG(x >= 0 && (i64)ref::powmod(a2, x, m) == b2, "order p^k: x=" << x << " a=" << a2 << " b=" << b2);
}

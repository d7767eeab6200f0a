// C04: Chinese remainders, Garner's mixed radix, Jacobi symbol, modular square roots.
#include "altruct/algorithm/math/modulos.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

template<typename T> static u64 lim() { return (u64)std::numeric_limits<T>::max(); }
// two moduli whose lcm fits in T, often with common factors
template<typename T> static void gen_moduli(Ctx& c, u64& n1, u64& n2) {
    u64 hi = lim<T>(); u64 g = c.coin() ? 1 : c.uinteger(1, c.coin() ? 1000 : (u64)ref::isqrt(hi));
    n1 = c.uinteger(1, hi / g); u64 rest = hi / g / n1; n2 = c.uinteger(1, std::max<u64>(rest, 1)); if (rest == 0) n2 = 1;
    if (c.chance(1, 4)) { n1 = c.uinteger(1, 60); n2 = c.uinteger(1, 60); g = 1; }
    n1 *= g; n2 *= g; if (c.coin()) std::swap(n1, n2);
}
template<typename T> static void crt(Ctx& c) {
    u64 n1, n2; gen_moduli<T>(c, n1, n2); u64 g = ref::gcd(n1, n2); u128 l = (u128)n1 / g * n2; c.assume(l <= lim<T>() && (u64)(T)n1 == n1 && n1 <= lim<T>() && n2 <= lim<T>());
    u64 a1 = c.uinteger(0, n1 - 1), a2 = c.uinteger(0, n2 - 1);
    if (c.coin()) { u64 x = c.uinteger(0, (u64)l - 1); a1 = x % n1; a2 = x % n2; }
    SHOW(n1); SHOW(n2); SHOW(a1); SHOW(a2); SHOW(sizeof(T)); c.show("signed", std::is_signed<T>::value);
    bool ok = a1 % g == a2 % g; c.nontrivial(n1 > 1 && n2 > 1 && a1 + a2 > 0); c.label("common factor", g > 1); c.label("incompatible", !ok);
    T a = 77, n = 77; chinese_remainder<T>(&a, &n, (T)a1, (T)n1, (T)a2, (T)n2);
    T s = chinese_remainder<T>((T)a1, (T)n1, (T)a2, (T)n2);
    T ra = (T)a1, rn = (T)n1; chinese_remainder<T>(&ra, &rn, (T)a2, (T)n2);
    CHECK_EQ(s, a); CHECK_EQ(ra, a); CHECK_EQ(rn, n);
    if (!ok) { CHECK_EQ((u64)n, 0u); CHECK_EQ((u64)a, 0u); return; }
    CHECK_EQ((u64)n, (u64)l); CHECK_MSG(a >= 0 && (u64)a < (u64)n, "a=" << a); CHECK_MSG((u64)a % n1 == a1 && (u64)a % n2 == a2, "a=" << a);
}
PROP(crt_two, 3400000, 85000000) {
    switch (c.below(4)) { case 0: crt<int>(c); break; case 1: crt<i64>(c); break; case 2: crt<uint32_t>(c); break; case 3: crt<u64>(c); break; }
}
PROP(crt_fold, 2000000, 50000000) {
    int k = (int)c.range(1, 8); u64 x = c.uinteger(0, 1ull << 60); i64 a = 0, n = 1; u64 l = 1; std::vector<std::pair<u64, u64>> eq;
    for (int i = 0; i < k; i++) { u64 m = c.uinteger(1, 1 << 20); u64 l2 = l / ref::gcd(l, m); if ((u128)l2 * m > (u64)INT64_MAX) continue; l = l2 * m; eq.push_back({ x % m, m }); }
    SHOW(eq); c.nontrivial(eq.size() > 2);
    for (auto& e : eq) chinese_remainder<i64>(&a, &n, (i64)e.first, (i64)e.second);
    CHECK_EQ((u64)n, l); CHECK_EQ((u64)a, x % l);
}
template<typename MOD> static void garner_case(Ctx& c, u64 maxp) {
    std::vector<MOD> v; std::vector<u64> ms; int k = (int)c.range(1, 6); u128 prod = 1; 
    for (int i = 0; i < k; i++) { u64 m = c.uinteger(2, maxp); bool ok = true; for (u64 q : ms) ok &= ref::gcd(q, m) == 1; if (!ok || prod * m > ((u128)1 << 120) || (prod >> 60 && m >> 60)) continue; ms.push_back(m); prod *= m; }
    c.assume(!ms.empty()); u128 u = ((u128)c.uinteger(0, UINT64_MAX) << 56 ^ c.uinteger(0, UINT64_MAX)) % prod;
    for (u64 m : ms) v.push_back(MOD((i64)(u64)(u % m), (i64)m));
    SHOW(ms); SHOW(u); c.nontrivial(ms.size() > 1); c.label("descending moduli", ms.size() > 1 && ms[0] > ms[1]);
    auto x = garner(v); CHECK_EQ(x.size(), v.size()); u128 r = 0, q = 1;
    for (size_t i = 0; i < x.size(); i++) { CHECK_MSG((u64)x[i].M() == ms[i] && x[i].v >= 0 && (u64)x[i].v < ms[i], "digit " << i); r += q * (u64)x[i].v; q *= ms[i]; }
    CHECK_EQ(r, u);
}
PROP(garner_mixed_radix, 1900000, 47500000) { if (c.coin()) garner_case<moduloX<i64>>(c, c.coin() ? 100 : 2000000000); else garner_case<moduloX<int>>(c, c.coin() ? 100 : INT32_MAX); }

static int legendre(u64 n, u64 p) { n %= p; if (!n) return 0; return ref::powmod(n, (p - 1) / 2, p) == 1 ? 1 : -1; }
template<typename T> static void jac(Ctx& c) {
    u64 m = 1, lg = lim<T>(); std::vector<u64> ps; int k = (int)c.range(0, 5);
    for (int i = 0; i < k; i++) { u64 p = ref::next_prime(c.uinteger(3, c.chance(1, 4) ? 1u << 31 : 100)); if ((u128)m * p <= lg) m *= p, ps.push_back(p); }
    u64 n = c.uinteger(0, lg); if (c.coin()) n = c.uinteger(0, m); if (c.chance(1, 6) && !ps.empty()) n = n / ps[0] * ps[0];
    SHOW(n); SHOW(m); int e = 1; for (u64 p : ps) e *= legendre(n, p); c.nontrivial(m > 3); c.label("zero", e == 0); c.label("-1", e == -1);
    CHECK_EQ((jacobi<T>((T)n, (T)m)), e);
}
PROP(jacobi_symbol, 1700000, 42500000) { switch (c.below(4)) { case 0: jac<int>(c); break; case 1: jac<i64>(c); break; case 2: jac<uint32_t>(c); break; case 3: jac<u64>(c); break; } }

template<typename T> static void cip(Ctx& c, u64 hi) {
    u64 p = ref::next_prime(c.uinteger(2, hi / 2)); u64 x = c.uinteger(1, p - 1), y = ref::mulmod(x, x, p); SHOW(p); SHOW(y); c.nontrivial(p > 3);
    T r = sqrt_cipolla<T>((T)y, (T)p); CHECK_MSG(r >= 0 && (u64)r < p && ref::mulmod((u64)r, (u64)r, p) == y, "root " << r);
    c.label("p = 1 mod 8", p % 8 == 1);
}
PROP(sqrt_prime, 230000, 5750000) { switch (c.below(3)) { case 0: cip<int>(c, c.coin() ? 300 : INT32_MAX); break; case 1: cip<i64>(c, c.coin() ? 2000000000ull : (u64)INT64_MAX); break; case 2: cip<uint32_t>(c, UINT32_MAX); break; } }
PROP(sqrt_power_of_two, 1400000, 35000000) {
    int k = (int)c.range(1, 60); i64 m = 1ll << k; i64 x = c.integer(0, m - 1) | 1; i64 y = (i64)ref::mulmod(x, x, m); bool sq = true;
    if (c.chance(1, 4)) { y = c.integer(0, m - 1); sq = (y & 1) && (k < 2 || y % 4 == 1) && (k < 3 || y % 8 == 1); }
    SHOW(k); SHOW(y); c.nontrivial(k > 3); auto r = sqrt_hensel_lift_p2<i64>(y, k);
    if (!sq) { CHECK_EQ(r, std::make_pair((i64)0, (i64)0)); return; }
    for (i64 s : { r.first, r.second }) CHECK_MSG(s > 0 && s < m && (i64)ref::mulmod(s, s, m) == y, "not a root: " << s << " of " << y);
    // the four roots are x1, x2, -x2, -x1
    std::set<i64> got{ r.first, r.second, m - r.first, m - r.second }, exp; 
    if (k <= 2) { exp = { 1, m - 1 }; } else { i64 h = m / 2; i64 z = r.first; exp = { z, m - z, (z + h) % m, (m - z + h) % m }; }
    CHECK_EQ(got, exp);
}
PROP(sqrt_prime_power, 930000, 23250000) {
    u64 p = ref::next_prime(c.uinteger(3, c.coin() ? 30 : 2000000)); int kmax = 0; for (u64 q = 1; (u128)q * p < (1ull << 62); q *= p) kmax++; int k = (int)c.range(1, kmax);
    u64 m = ref::ipow(p, k), x = c.uinteger(1, m - 1); c.assume(x % p); u64 y = ref::mulmod(x, x, m); SHOW(p); SHOW(k); SHOW(y); c.nontrivial(k > 1);
    i64 r = sqrt_hensel_lift<i64>(y, p, k); CHECK_MSG(r > 0 && (u64)r < m && ref::mulmod(r, r, m) == y, "root " << r << " x " << x);
}
PROP(sqrt_composite_all_roots, 470000, 11750000) {
    u64 m = 1; std::vector<std::pair<i64, int>> vf; auto ps = std::vector<i64>{ 2, 3, 5, 7, 11, 13, 17, 101 }; auto pm = c.permutation((int)ps.size()); int k = (int)c.range(1, 4);
    for (int i = 0; i < k; i++) { i64 p = ps[pm[i]]; int e = 0, w = (int)c.range(1, p == 2 ? 8 : 3); while (e < w && m * p < 6000) m *= p, e++; if (e) vf.push_back({ p, e }); }
    c.assume(m > 1); i64 x = c.range(1, m); c.assume(ref::gcd(x, m) == 1); i64 y = x * x % (i64)m; SHOW(vf); SHOW(y); c.nontrivial(vf.size() > 1);
    std::vector<i64> e; for (i64 z = 0; z < (i64)m; z++) if ((z * z - y) % (i64)m == 0) e.push_back(z);
    std::vector<std::pair<int, int>> vi; for (auto& f : vf) vi.push_back({ (int)f.first, f.second });
    auto ri = sqrt_mod<int, int>((int)y, vi); std::sort(ri.begin(), ri.end()); CHECK_EQ(std::vector<i64>(ri.begin(), ri.end()), e);
}

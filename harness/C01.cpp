// C01: integer base operations are exact over the whole range of their types.
#include "altruct/algorithm/math/base.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

// integers biased to roots: near k^2, k^3
static u64 near_power(Ctx& c, u64 hi, int e) {
    u64 r = e == 2 ? ref::isqrt(hi) : ref::icbrt(hi);
    u64 k = c.uinteger(0, r);
    u128 v = e == 2 ? (u128)k * k : (u128)k * k * k;
    i128 w = (i128)v + c.range(-2, 2);
    if (w < 0) w = 0;
    if (w > (i128)hi) w = hi;
    return (u64)w;
}
template<typename T> static void roots_of_type(Ctx& c) {
    T mx = std::numeric_limits<T>::max();
    u64 m = c.chance(2, 3) ? near_power(c, (u64)mx, c.coin() ? 2 : 3) : c.uinteger(0, (u64)mx);
    bool neg = std::is_signed<T>::value && c.chance(1, 4);
    T x = neg ? T(-(i64)m) : T(m);
    SHOW(sizeof(T)); c.show("x", x);
    c.nontrivial(m > 3);
    c.label("negative", neg);
    u64 rs = ref::isqrt(m), rc = ref::icbrt(m);
    T es = neg ? T(-(i64)rs) : T(rs), ec = neg ? T(-(i64)rc) : T(rc);
    CHECK_EQ(sqrtT(x), es);
    if (sizeof(T) > 1) CHECK_EQ(cbrtT(x), ec);
    if (!neg) {
        CHECK_EQ(is_square(x), (bool)(rs * rs == m));
    }
    if (sizeof(T) > 1) CHECK_EQ(is_cube(x), (bool)(rc * rc * rc == m));
}
PROP(int_roots_by_type, 4900000, 122500000) {
    switch (c.below(8)) {
    case 0: roots_of_type<int8_t>(c); break;
    case 1: roots_of_type<uint8_t>(c); break;
    case 2: roots_of_type<int16_t>(c); break;
    case 3: roots_of_type<uint16_t>(c); break;
    case 4: roots_of_type<int32_t>(c); break;
    case 5: roots_of_type<uint32_t>(c); break;
    case 6: roots_of_type<int64_t>(c); break;
    case 7: roots_of_type<uint64_t>(c); break;
    }
}
// isqrt / isqrtc return int32_t: specified where the root fits, |x| <= (2^31-1)^2
PROP(isqrt_icbrt, 4300000, 107500000) {
    const u64 S = 2147483647ull * 2147483647ull;
    u64 m = c.chance(2, 3) ? near_power(c, S, 2) : c.uinteger(0, S);
    bool neg = c.chance(1, 4);
    i64 x = neg ? -(i64)m : (i64)m;
    SHOW(x); c.nontrivial(m > 3);
    i64 f = ref::isqrt(m), ce = f * f == (i64)m ? f : f + 1;
    CHECK_EQ((i64)isqrt(x), neg ? -f : f);
    CHECK_EQ((i64)isqrtc(x), neg ? -ce : ce);
    CHECK_EQ(isq(f), f * f);
    u64 m3 = c.chance(2, 3) ? near_power(c, INT64_MAX, 3) : c.uinteger(0, INT64_MAX);
    bool neg3 = c.chance(1, 4);
    i64 y = neg3 ? -(i64)m3 : (i64)m3;
    SHOW(y);
    i64 g = ref::icbrt(m3), cg = (u128)g * g * g == m3 ? g : g + 1;
    CHECK_EQ((i64)icbrt(y), neg3 ? -g : g);
    CHECK_EQ((i64)icbrtc(y), neg3 ? -cg : cg);
    CHECK_EQ(icb(g), g * g * g);
}
// generic Newton implementation (any ordered ring without a specialization), here __int128
PROP(sqrt_cbrt_generic, 3400000, 85000000) {
    u64 a = c.uinteger(0, UINT64_MAX >> 2), b = c.uinteger(0, 1u << 20);
    int d = (int)c.range(-2, 2);
    i128 x = (i128)a * a + d; if (x < 0) x = 0;
    SHOW(x); c.nontrivial(x > 3);
    // exact root by bisection
    auto root = [](i128 v) { i128 lo = 0, hi = (i128)1 << 63; while (hi - lo > 1) { i128 m = (lo + hi) / 2; if (m * m <= v) lo = m; else hi = m; } return lo; };
    bool neg = c.chance(1, 5);
    i128 r = sqrtT<i128>(neg ? -x : x);
    CHECK_EQ(r, neg ? -root(x) : root(x));
    i128 y = c.chance(1, 4) ? (i128)c.uinteger(0, UINT64_MAX) : (i128)b * b * b + c.range(-2, 2); if (y < 0) y = 0;
    SHOW(y); i128 lo = 0, hi = (i128)1 << 22; while (hi - lo > 1) { i128 m = (lo + hi) / 2; if (m * m * m <= y) lo = m; else hi = m; }
    CHECK_EQ(cbrtT<i128>(neg ? -y : y), neg ? -lo : lo);
    CHECK_EQ(is_square<i128>(x), root(x) * root(x) == x); CHECK_EQ(is_cube<i128>(y), lo * lo * lo == y);
}
template<typename T> static void divisions(Ctx& c) {
    bool sg = std::is_signed<T>::value; const i128 mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
    auto any = [&]() -> i128 { if (sg) return c.integer((i64)mn, (i64)mx); return c.uinteger(0, (u64)mx); };
    i128 a = any(), b = any();
    if (c.chance(1, 3)) { i64 q = c.integer(sg ? -100 : 0, 100); i128 t = (i128)b * q + c.range(sg ? -1 : 0, 1); if (t <= mx && t >= mn) a = t; }
    if (c.chance(1, 4)) b = c.integer(1, 100); if (c.chance(1, 6)) a = c.coin() ? mx - (i128)c.below(100) : mn + (i128)c.below(100); if (b == 0) b = 1;
    if (sg && b == mn) b++; if (b < 0 && a == mn) a++; // -a, -b representable
    c.show("a", a); c.show("b", b); c.nontrivial(a % b != 0 && a != 0);
    i128 A = a, B = b; if (B < 0) A = -A, B = -B;
    i128 fl = A >= 0 ? A / B : -((-A + B - 1) / B), ce = A >= 0 ? (A + B - 1) / B : -(-A / B);
    CHECK_EQ(div_floor<T>(a, b), (T)fl);
    CHECK_EQ(div_ceil<T>(a, b), (T)ce);
    // nearest, ties away from zero
    i128 m = A < 0 ? -A : A; i128 rn = (2 * m + B) / (2 * B);
    if (m + B / 2 <= mx) CHECK_EQ(div_round<T>(a, b), (T)(A < 0 ? -rn : rn)); // a +- b/2 representable
    // the smallest multiple of a that is >= b
    if (a > 0) {
        i128 q = b >= 0 ? ((i128)b + a - 1) / a : -(-(i128)b / a);
        if (q * a <= mx && q * a >= mn) CHECK_EQ(multiple<T>(a, b), (T)(q * a));
    }
    c.label("negative operand", a < 0 || b < 0); c.label("tie", 2 * (m % B) == B);
}
PROP(division_rounding, 4200000, 105000000) {
    switch (c.below(5)) {
    case 0: divisions<int32_t>(c); break;
    case 1: divisions<int64_t>(c); break;
    case 2: divisions<uint32_t>(c); break;
    case 3: divisions<int16_t>(c); break;
    case 4: divisions<uint64_t>(c); break;
    }
}
template<typename T> static void gcds(Ctx& c) {
    u64 lim = (u64)std::numeric_limits<T>::max();
    u64 a, b;
    if (c.coin()) { u64 g = c.uinteger(0, lim); u64 k = g ? lim / g : lim; a = g * c.uinteger(0, k); b = g * c.uinteger(0, k); }
    else { a = c.uinteger(0, lim); b = c.uinteger(0, lim); }
    c.show("a", a); c.show("b", b);
    u64 g = ref::gcd(a, b);
    c.nontrivial(g > 1 && a != b && a && b);
    CHECK_EQ(gcd<T>(a, b), (T)g);
    if (g) { u128 l = (u128)a * (b / g); if (l <= lim) { CHECK_EQ(lcm<T>(a, b), (T)(u64)l); } }
}
PROP(gcd_lcm, 5000000, 125000000) {
    switch (c.below(4)) {
    case 0: gcds<int32_t>(c); break;
    case 1: gcds<int64_t>(c); break;
    case 2: gcds<uint32_t>(c); break;
    case 3: gcds<uint64_t>(c); break;
    }
    // negative input: right up to sign
    i64 x = c.integer(-INT64_MAX, INT64_MAX), y = c.integer(-INT64_MAX, INT64_MAX);
    CHECK_EQ(ref::absu(gcd<i64>(x, y)), ref::gcd(ref::absu(x), ref::absu(y)));
}
PROP(gcd_ex_bezout, 5000000, 125000000) {
    i64 lim = c.coin() ? 1000 : INT64_MAX / 2;
    i64 a = c.integer(-lim, lim), b = c.integer(-lim, lim);
    if (c.chance(1, 3) && lim > 1000) { i64 g = c.integer(1, 1 << 20); a = a / (1 << 20) * g; b = b / (1 << 20) * g; }
    SHOW(a); SHOW(b);
    i64 x = 77, y = 77; int s = -1;
    i64 g = gcd_ex<i64>(a, b, &x, &y, &s);
    c.nontrivial(a && b && ref::absu(g) != ref::absu(a) && ref::absu(g) != ref::absu(b));
    CHECK_EQ(ref::absu(g), ref::gcd(ref::absu(a), ref::absu(b)));
    CHECK_MSG((i128)a * x + (i128)b * y == g, "x=" << x << " y=" << y << " g=" << g);
    int steps = 0; for (i64 p = a, q = b; q != 0; steps++) { i64 r = p % q; p = q; q = r; } CHECK_EQ(s, steps);
    // every combination of requested outputs gives the same values
    i64 x2 = 1, y2 = 1;
    CHECK_EQ(gcd_ex<i64>(a, b, &x2), g); CHECK_EQ(x2, x);
    CHECK_EQ(gcd_ex<i64>(a, b, nullptr, &y2), g); CHECK_EQ(y2, y);
    CHECK_EQ(gcd_ex<i64>(a, b), g);
    i64 h = gcd_ex<i64>(ref::absu(a), ref::absu(b));
    CHECK_EQ((u64)h, ref::gcd(ref::absu(a), ref::absu(b)));
}
// gcd(a^inf, b)
PROP(gcd_max_rule, 6200000, 155000000) {
    u64 a = c.uinteger(1, 3000000), b = 1;
    if (c.coin()) { int k = (int)c.range(0, 5); for (int i = 0; i < k; i++) b *= c.pick<u64>({ 2, 3, 4, 5, 6, 7, 9, 11, 12, 25, 30 }); a = 1; k = (int)c.range(0, 4); for (int i = 0; i < k; i++) a *= c.pick<u64>({ 2, 3, 5, 6, 7, 10, 13 }); }
    else b = c.uinteger(1, 3000000);
    SHOW(a); SHOW(b);
    u64 e = 1, r = b;
    for (;;) { u64 g = ref::gcd(a, r); if (g == 1) break; r /= g; e *= g; }
    c.nontrivial(e > 1 && e < b);
    CHECK_EQ(gcd_max<i64>(a, b), (i64)e);
    CHECK_EQ(gcd_max<u64>(a, b), e);
}
PROP(powT_unsigned_ring, 6000000, 150000000) {
    // unsigned arithmetic is the ring Z/2^64: powT is exact there
    u64 x = c.uinteger(0, UINT64_MAX), n = c.uinteger(0, c.coin() ? 40 : UINT64_MAX), e = 1;
    SHOW(x); SHOW(n); c.nontrivial(n > 2 && x > 1);
    u64 bse = x; for (u64 t = n; t; t >>= 1) { if (t & 1) e *= bse; bse *= bse; }
    CHECK_EQ((powT<u64, u64>(x, n)), e);
    // small exponents against repeated multiplication, signed exponent type
    int k = (int)c.range(-3, 30); u64 p = 1; for (int i = 0; i < k; i++) p *= x;
    CHECK_EQ((powT<u64, int>(x, k)), p);
    if (k >= 0) { // homomorphism
        int l = (int)c.range(0, 30);
        CHECK_EQ((powT<u64, int>(x, k) * powT<u64, int>(x, l)), (powT<u64, int>(x, k + l)));
    }
    CHECK_EQ(sqT<u64>(x), x * x); CHECK_EQ(cbT<u64>(x), x * x * x);
}
PROP(min_max_abs_bound, 6100000, 152500000) {
    i64 a = c.integer(-INT64_MAX, INT64_MAX), b = c.integer(-INT64_MAX, INT64_MAX), d = c.integer(-INT64_MAX, INT64_MAX);
    SHOW(a); SHOW(b); SHOW(d); c.nontrivial(a != b);
    CHECK_EQ(minT(a, b), a < b ? a : b); CHECK_EQ(maxT(a, b), a > b ? a : b); CHECK_EQ(absT(a), a < 0 ? -a : a);
    i64 l = std::min(b, d), r = std::max(b, d);
    i64 v = boundT(a, l, r);
    CHECK(l <= v && v <= r); CHECK(v == a || (a < l && v == l) || (a > r && v == r));
}

// C03: modulo<T> is exactly the ring Z/M for every storage kind and integral type.
#include "altruct/structure/math/modulo.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

template<typename T> static T gen_M(Ctx& c) {
    u64 mx = (u64)std::numeric_limits<T>::max();
    switch (c.below(4)) {
    case 0: return (T)c.uinteger(1, std::min<u64>(mx, 30));
    case 1: { u64 m = 1; while (c.below(6)) { u64 f = c.pick<u64>({ 2, 3, 5, 6, 7, 11, 16, 101, 1009 }); if ((u128)m * f > mx) break; m *= f; } return (T)m; }
    case 2: return (T)(mx - c.uinteger(0, 100));
    default: return (T)c.uinteger(1, mx);
    }
}
template<typename MOD, typename T> struct Maker; // makes values of a type with the modulus M

template<typename T, typename MK> static void ring(Ctx& c, T M, MK mk) {
    u64 m = (u64)M;
    u64 x = c.uinteger(0, m - 1), y = c.uinteger(0, m - 1);
    SHOW(sizeof(T)); c.show("signed", std::is_signed<T>::value); c.show("M", m); SHOW(x); SHOW(y);
    c.nontrivial(x > 1 && y > 1);
    c.label("M above half of the type", m > (u64)std::numeric_limits<T>::max() / 2);
    auto a = mk((T)x), b = mk((T)y);
    typedef decltype(a) mod;
    auto is = [&](const mod& r, u64 e, const char* what) { CHECK_MSG((u64)r.v == e && r.v >= 0 && (u64)r.M() == m, what << ": got " << pbt::show(r.v) << " (mod " << pbt::show(r.M()) << "), expected " << e); };
    is(a, x, "value"); is(b, y, "value");
    u64 s = (u64)(((u128)x + y) % m), d = (u64)(((u128)x + m - y) % m), p = ref::mulmod(x, y, m), n = (m - x) % m;
    is(a + b, s, "a + b"); is(a - b, d, "a - b"); is(a * b, p, "a * b"); is(-a, n, "-a"); is(a.neg(), n, "neg");
    { auto t = a; is(t += b, s, "+="); is(t, s, "+="); t = a; is(t -= b, d, "-="); t = a; is(t *= b, p, "*="); }
    // aliasing
    { auto t = a; t += t; is(t, (u64)(((u128)x + x) % m), "a += a"); t = a; t -= t; is(t, 0, "a -= a"); t = a; t *= t; is(t, ref::mulmod(x, x, m), "a *= a"); }
    CHECK_EQ(a == b, x == y); CHECK_EQ(a != b, x != y); CHECK_EQ(a < b, x < y); CHECK_EQ(a > b, x > y); CHECK_EQ(a <= b, x <= y); CHECK_EQ(a >= b, x >= y);
    u64 g = ref::gcd(x, m);
    if (g == 1) { c.label("invertible"); is(a.inv() * a, 1 % m, "inv"); }
    else { CHECK_EQ((u64)a.inv().v, 0ull); }
    // division: whenever a solution of q*b = a exists, the quotient is one
    u64 gy = ref::gcd(y, m);
    if (y && x % gy == 0) { c.label("division by non-unit", gy > 1); auto q = a / b; CHECK_MSG((u64)q.v < m, "quotient not reduced"); is(q * b, x, "(a / b) * b"); auto t = a; t /= b; is(t * b, x, "/="); }
    { // divide an exact multiple back
        auto pr = a * b; if (y) { auto q = pr / b; is(q * b, p, "(a*b/b)*b"); if (gy == 1) is(q, x, "a*b/b"); }
    }
    is(identityOf(a), 1 % m, "identity"); is(zeroOf(a), 0, "zero");
    // powers
    u64 e = c.uinteger(0, 1u << 20);
    is(powT(a, e), ref::powmod(x, e, m), "pow");
    if (y) CHECK_EQ((u64)(a % b).v, x % y);
}
PROP(instance_storage, 2000000, 50000000) {
    switch (c.below(6)) {
    case 0: { int32_t M = gen_M<int32_t>(c); ring<int32_t>(c, M, [=](int32_t v) { return moduloX<int32_t>(v, M); }); break; }
    case 1: { uint32_t M = gen_M<uint32_t>(c); ring<uint32_t>(c, M, [=](uint32_t v) { return moduloX<uint32_t>(v, M); }); break; }
    case 2: { int64_t M = gen_M<int64_t>(c); ring<int64_t>(c, M, [=](int64_t v) { return moduloX<int64_t>(v, M); }); break; }
    case 3: { uint64_t M = gen_M<uint64_t>(c); ring<uint64_t>(c, M, [=](uint64_t v) { return moduloX<uint64_t>(v, M); }); break; }
    case 4: { int64_t M = gen_M<int32_t>(c); ring<int64_t>(c, M, [=](int64_t v) { return moduloX<int64_t>(v, M); }); break; }
    case 5: { int32_t M = (int32_t)c.range(1, 60); ring<int32_t>(c, M, [=](int32_t v) { return moduloX<int32_t>(v, M); }); break; }
    }
}
template<typename T, u64 M> static void constant(Ctx& c) { typedef modulo<T, M, modulo_storage::CONSTANT> m; ring<T>(c, (T)M, [](T v) { return m(v); }); }
// the narrow integral types
PROP(narrow_types, 2900000, 72500000) {
    switch (c.below(6)) {
    case 0: { uint8_t M = gen_M<uint8_t>(c); ring<uint8_t>(c, M, [=](uint8_t v) { return moduloX<uint8_t>(v, M); }); break; }
    case 1: { int8_t M = gen_M<int8_t>(c); ring<int8_t>(c, M, [=](int8_t v) { return moduloX<int8_t>(v, M); }); break; }
    case 2: { uint16_t M = gen_M<uint16_t>(c); ring<uint16_t>(c, M, [=](uint16_t v) { return moduloX<uint16_t>(v, M); }); break; }
    case 3: { int16_t M = gen_M<int16_t>(c); ring<int16_t>(c, M, [=](int16_t v) { return moduloX<int16_t>(v, M); }); break; }
    case 4: constant<uint16_t, 65521>(c); break; case 5: constant<uint8_t, 251>(c); break;
    }
}
PROP(static_storage, 2000000, 50000000) {
    switch (c.below(4)) {
    case 0: { typedef modulo<int32_t, 77, modulo_storage::STATIC> m; int32_t M = gen_M<int32_t>(c); m::M() = M; ring<int32_t>(c, M, [=](int32_t v) { return m(v); }); break; }
    case 1: { typedef modulo<uint32_t, 77, modulo_storage::STATIC> m; uint32_t M = gen_M<uint32_t>(c); m::M() = M; ring<uint32_t>(c, M, [=](uint32_t v) { return m(v); }); break; }
    case 2: { typedef modulo<int64_t, 77, modulo_storage::STATIC> m; int64_t M = gen_M<int64_t>(c); m::M() = M; ring<int64_t>(c, M, [=](int64_t v) { return m(v); }); break; }
    case 3: { typedef modulo<uint64_t, 77, modulo_storage::STATIC> m; uint64_t M = gen_M<uint64_t>(c); m::M() = M; ring<uint64_t>(c, M, [=](uint64_t v) { return m(v); }); break; }
    }
}
PROP(constant_storage, 1300000, 32500000) {
    switch (c.below(13)) {
    case 0: constant<int32_t, 1000000007>(c); break; case 1: constant<int32_t, 2147483647>(c); break; case 2: constant<int32_t, 1>(c); break;
    case 3: constant<uint32_t, 4294967291u>(c); break; case 4: constant<uint32_t, 4294967295u>(c); break; case 5: constant<int64_t, 1000000007>(c); break;
    case 6: constant<int64_t, 9223372036854775783ll>(c); break; case 7: constant<uint64_t, 18446744073709551557ull>(c); break; case 8: constant<uint64_t, 18446744073709551615ull>(c); break;
    case 9: constant<int32_t, 720720>(c); break; case 10: constant<int64_t, 1000000000000ll>(c); break; case 11: constant<int32_t, 1009>(c); break; case 12: constant<uint64_t, 4294967296ull>(c); break;
    }
}
// construction reduces any integer of any integral type into [0, M)
template<typename T, typename S> static void norm(Ctx& c) {
    T M = gen_M<T>(c); S v = c.any<S>();
    c.show("M", M); c.show("v", v); SHOW(sizeof(T)); SHOW(sizeof(S)); c.nontrivial((i128)v < 0 || (i128)v >= (i128)M); c.label("negative", v < 0);
    i128 e = (i128)v % (i128)M; if (e < 0) e += M;
    moduloX<T> a(v, M); CHECK_EQ((i128)a.v, e);
    typedef modulo<T, 78, modulo_storage::STATIC> ms; ms::M() = M; CHECK_EQ((i128)ms(v).v, e); CHECK_EQ((i128)castOf<ms>(v).v, e);
    CHECK_EQ((i128)castOf(moduloX<T>(0, M), v).v, e);
    CHECK_EQ((i128)modulo_normalize(v, M), e);
}
PROP(normalization, 8200000, 205000000) {
    switch (c.below(14)) {
    case 10: norm<uint8_t, uint8_t>(c); break; case 11: norm<int8_t, int8_t>(c); break; case 12: norm<uint16_t, int32_t>(c); break; case 13: norm<int16_t, int16_t>(c); break;
    case 0: norm<int32_t, int32_t>(c); break; case 1: norm<int32_t, int64_t>(c); break; case 2: norm<int64_t, int32_t>(c); break; case 3: norm<int64_t, int64_t>(c); break;
    case 4: norm<uint32_t, uint32_t>(c); break; case 5: norm<uint64_t, uint64_t>(c); break; case 6: norm<uint32_t, int32_t>(c); break; case 7: norm<uint64_t, int64_t>(c); break;
    case 8: norm<int32_t, uint32_t>(c); break; case 9: norm<int32_t, uint64_t>(c); break;
    }
}
template<typename T> static void free_fns(Ctx& c) {
    T M = gen_M<T>(c); u64 m = (u64)M; T x = (T)c.uinteger(0, m - 1), y = (T)c.uinteger(0, m - 1); u64 e = c.uinteger(0, UINT64_MAX);
    c.show("M", m); c.show("x", (u64)x); c.show("y", (u64)y); SHOW(e); c.nontrivial(x > 1 && e > 2);
    CHECK_EQ((u64)modulo_power(x, e, M), ref::powmod(x, e, m));
    CHECK_EQ((u64)modulo_mul(x, y, M), ref::mulmod(x, y, m)); CHECK_EQ((u64)modulo_add(x, y, M), (u64)(((u128)x + y) % m)); CHECK_EQ((u64)modulo_sub(x, y, M), (u64)(((u128)x + m - y) % m));
    CHECK_EQ((u64)modulo_neg(x, M), (m - (u64)x) % m); CHECK_EQ(modT(x, M), x);
    if (ref::gcd(x, m) == 1) CHECK_EQ(ref::mulmod((u64)modulo_inv(x, M), x, m), 1 % m);
    if (y) { // Bezout coefficients reduced to non-negative
        T p, q; if (x > 0) { T g = modulo_gcd_ex(x, y, p, q); CHECK_EQ((u64)g, ref::gcd(x, y));
            CHECK_MSG(p >= 0 && q >= 0 && (u64)p <= (u64)y && (u64)q <= (u64)x, "p=" << pbt::show(p) << " q=" << pbt::show(q));
            CHECK_EQ(ref::mulmod((u64)p, (u64)x % y, y), (u64)g % y); CHECK_EQ(ref::mulmod((u64)q, (u64)y % x, x), (u64)g % x); }
    }
}
PROP(free_functions, 1800000, 45000000) {
    switch (c.below(8)) { case 4: free_fns<int8_t>(c); break; case 5: free_fns<uint8_t>(c); break; case 6: free_fns<int16_t>(c); break; case 7: free_fns<uint16_t>(c); break; case 0: free_fns<int32_t>(c); break; case 1: free_fns<uint32_t>(c); break; case 2: free_fns<int64_t>(c); break; case 3: free_fns<uint64_t>(c); break; }
}
// field laws and mixed operands in a prime field kept as instances
PROP(mixed_operand, 11000000, 275000000) {
    i64 M = gen_M<int32_t>(c); i64 x = c.range(0, M - 1), u = c.range(0, M - 1);
    SHOW(M); SHOW(x); SHOW(u); c.nontrivial(x > 0 && u > 0);
    moduloX<i64> a(x, M);
    CHECK_EQ((a * u).v, (i64)((i128)x * u % M)); CHECK_EQ((a + u).v, (x + u) % M); CHECK_EQ((a - u).v, (x - u + M) % M);
    CHECK_EQ((a * u).M(), M);
}
// residues of polynomials over a prime field (non-integral moduli)
#include "altruct/structure/math/polynom.h"
typedef std::vector<i64> pv;
static void trim(pv& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static pv pmul(const pv& a, const pv& b, i64 p) { pv r(a.empty() || b.empty() ? 0 : a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = (r[i + j] + a[i] * b[j]) % p; trim(r); return r; }
static pv pmod(pv a, const pv& m, i64 p) { i64 li = (i64)ref::powmod(m.back(), p - 2, p); trim(a);
    while (a.size() >= m.size()) { i64 q = a.back() * li % p; size_t o = a.size() - m.size(); for (size_t i = 0; i < m.size(); i++) a[o + i] = (a[o + i] + (p - q) * m[i]) % p; trim(a); } return a; }
static pv pgcd(pv a, pv b, i64 p) { while (!b.empty()) { pv t = pmod(a, b, p); a = b; b = t; } return a; }
template<typename mod, typename polymod, typename MK> static void residues(Ctx& c, i64 p, MK mk) {
    typedef polynom<mod> poly;
    auto gen = [&](int n) { pv r(n); for (auto& x : r) x = c.coin() ? c.range(0, std::min<i64>(p - 1, 3)) : c.range(0, p - 1); return r; };
    auto to = [&](const pv& a) { std::vector<mod> r; for (i64 x : a) r.push_back(mod((int)x)); return poly(r); };
    auto from = [&](const poly& a) { pv r; for (auto& x : a.c) r.push_back(x.v); trim(r); return r; };
    int d = (int)c.range(1, 5); pv m = gen(d); m.push_back(c.coin() ? 1 : c.range(1, p - 1));
    pv u = gen((int)c.range(0, 9)), v = gen((int)c.range(0, 9)); i64 e = c.range(0, 300);
    SHOW(p); SHOW(m); SHOW(u); SHOW(v); SHOW(e);
    poly M = to(m); polymod a = mk(to(u), M), b = mk(to(v), M);
    pv x = pmod(u, m, p), y = pmod(v, m, p); c.nontrivial(x.size() > 1 && y.size() > 1); c.label("reduced", u.size() > m.size());
    auto is = [&](const polymod& r, const pv& w, const char* what) { pv g = from(r.v); CHECK_MSG(g == w, what << ": got " << pbt::show(g) << ", expected " << pbt::show(w)); };
    auto lin = [&](const pv& s, const pv& t, i64 k) { pv r(std::max(s.size(), t.size())); for (size_t i = 0; i < r.size(); i++) r[i] = ((i < s.size() ? s[i] : 0) + k * (i < t.size() ? t[i] : 0)) % p; trim(r); return r; };
    is(a, x, "value"); is(b, y, "value"); pv xy = pmod(pmul(x, y, p), m, p);
    is(a + b, lin(x, y, 1), "a + b"); is(a - b, lin(x, y, p - 1), "a - b"); is(a * b, xy, "a * b"); is(-a, lin({}, x, p - 1), "-a"); is(a.neg(), lin({}, x, p - 1), "neg");
    { auto t = a; t += t; is(t, lin(x, x, 1), "a += a"); t = a; t -= t; is(t, {}, "a -= a"); t = a; t *= t; is(t, pmod(pmul(x, x, p), m, p), "a *= a"); }
    CHECK_EQ(a == b, x == y); CHECK_EQ(a != b, x != y);
    if (pgcd(x, m, p).size() == 1) { c.label("invertible"); is(a.inv() * a, { 1 }, "inv"); pv i = from(a.inv().v); CHECK_MSG(i.size() < m.size(), "inverse not reduced: " << pbt::show(i)); is((b * a) / a, y, "(b * a) / a"); is(b / a * a, y, "(b / a) * a"); }
    pv w{ 1 }; for (i64 k = e; k > 0; k--) w = pmod(pmul(w, x, p), m, p); is(powT(a, e), w, "pow");
    is(identityOf(a), { 1 }, "identity"); is(zeroOf(a), {}, "zero"); 
    is(castOf(a, (int)x.size()), (i64)x.size() % p ? pv{ (i64)x.size() % p } : pv{}, "cast");
}
template<int P> static void residues_p(Ctx& c) {
    typedef modulo<int, P, modulo_storage::CONSTANT> mod; typedef polynom<mod> poly;
    bool inst = c.coin(); c.show("instance", inst);
    if (inst) residues<mod, moduloX<poly>>(c, P, [](const poly& v, const poly& M) { return moduloX<poly>(v, M); });
    else { typedef modulo<poly, 1> pm; residues<mod, pm>(c, P, [](const poly& v, const poly& M) { pm::M() = M; return pm(v); }); }
}
PROP(polynomial_residues, 52000, 1300000) {
    switch (c.below(4)) { case 0: residues_p<2>(c); break; case 1: residues_p<7>(c); break; case 2: residues_p<101>(c); break; case 3: residues_p<1000000007>(c); break; }
}

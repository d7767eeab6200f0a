// C22: double-width integers against arithmetic modulo 2^n on arrays of bytes.
#include "pbt.h"
#include <cstring>
#include "altruct/structure/math/double_int.h"
using namespace altruct::math;
template<typename U, typename W> struct intr { // the intrinsics are the user's
    U adc(U x, U y, int& c) const { W r = W(x) + W(y) + W(c); c = int(r >> (sizeof(U) * 8)); return U(r); }
    U sbb(U x, U y, int& b) const { W r = W(x) - W(y) - W(b); b = int(r >> (sizeof(U) * 8)) & 1; return U(r); }
    U umul(U x, U y, U* hi) const { W r = W(x) * W(y); *hi = U(r >> (sizeof(U) * 8)); return U(r); }
};
typedef prim_int<int8_t, uint8_t, intr<uint8_t, uint32_t>> p8; typedef prim_int<int16_t, uint16_t, intr<uint16_t, uint32_t>> p16; typedef prim_int<int32_t, uint32_t, intr<uint32_t, uint64_t>> p32; typedef prim_int<int64_t, uint64_t, intr<uint64_t, unsigned __int128>> p64;
typedef double_int<p8> a16; typedef double_int<a16> a32; typedef double_int<a32> a64; typedef double_int<a64> a128; typedef double_int<p16> b32; typedef double_int<b32> b64; typedef double_int<p32> c64; typedef double_int<c64> c128; typedef double_int<c128> c256; typedef double_int<p64> d128; typedef double_int<d128> d256; typedef double_int<d256> d512; typedef double_int<d512> d1024;
// numbers modulo 2^(8 * size), least significant byte first
typedef std::vector<uint8_t> num;
static num add(const num& a, const num& b, int& cy) { num r(a.size()); for (size_t i = 0; i < a.size(); i++) { int s = a[i] + b[i] + cy; r[i] = (uint8_t)s; cy = s >> 8; } return r; }
static num inv(num a) { for (auto& x : a) x = (uint8_t)~x; return a; }
static num sub(const num& a, const num& b, int& bw) { int cy = !bw; num r = add(a, inv(b), cy); bw = !cy; return r; }
static num mul(const num& a, const num& b) { num r(a.size() + b.size()); for (size_t i = 0; i < a.size(); i++) { unsigned cy = 0; for (size_t j = 0; j < b.size(); j++) { unsigned s = r[i + j] + a[i] * b[j] + cy; r[i + j] = (uint8_t)s; cy = s >> 8; } r[i + b.size()] = (uint8_t)cy; } return r; }
static bool bit(const num& a, int i, bool fill) { return i < 0 ? false : i >= (int)a.size() * 8 ? fill : (a[i / 8] >> (i % 8)) & 1; }
static num shift(const num& a, int right, bool fill) { num r(a.size()); for (int i = 0; i < (int)a.size() * 8; i++) if (bit(a, i + right, fill)) r[i / 8] |= (uint8_t)(1 << (i % 8)); return r; }
static bool neg(const num& a) { return a.back() >> 7; }
static bool ult(const num& a, const num& b) { for (size_t i = a.size(); i--;) if (a[i] != b[i]) return a[i] < b[i]; return false; }
static bool slt(const num& a, const num& b) { return neg(a) != neg(b) ? neg(a) : ult(a, b); }
static num of(int64_t v, size_t n) { num r(n); for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(v >> std::min<size_t>(8 * i, 63)); return r; }
static std::string hex(const num& a) { std::string s; for (size_t i = a.size(); i--;) { s += "0123456789abcdef"[a[i] >> 4]; s += "0123456789abcdef"[a[i] & 15]; } return s; }
template<typename S, typename U, typename X> static void put(prim_int<S, U, X>& r, const uint8_t* p) { memcpy(&r.v, p, sizeof r.v); }
template<typename T> static void put(double_int<T>& r, const uint8_t* p) { put(r.lo, p); put(r.hi, p + T::type_bits / 8); }
template<typename S, typename U, typename X> static void get(const prim_int<S, U, X>& r, uint8_t* p) { memcpy(p, &r.v, sizeof r.v); }
template<typename T> static void get(const double_int<T>& r, uint8_t* p) { get(r.lo, p); get(r.hi, p + T::type_bits / 8); }
template<typename D> static D mk(const num& a) { D r; put(r, a.data()); return r; }
template<typename D> static std::string H(const D& x) { num r(D::type_bits / 8); get(x, r.data()); return hex(r); }
static num gen(pbt::Ctx& c, int n) {
    num a(n); uint8_t fill = c.coin() ? 0xFF : 0; int k = (int)c.weighted({ 3, 3, 2, 2 });
    if (k == 0) for (auto& x : a) x = (uint8_t)c.below(256);
    else if (k == 1) { for (auto& x : a) x = (uint8_t)c.pick<int>({ 0, 0xFF, 0, 0xFF, 1, 0x80, 0x7F, 0xFE }); }
    else { for (auto& x : a) x = fill; if (k == 2) { int m = (int)c.range(0, std::min(n, 8)); for (int i = 0; i < m; i++) a[i] = (uint8_t)c.below(256); } else { int m = (int)c.range(1, 3); for (int i = 0; i < m; i++) a[c.below(n)] ^= (uint8_t)(1 << c.below(8)); } }
    return a;
}
static num near(pbt::Ctx& c, const num& a) { if (c.chance(2, 3)) return gen(c, (int)a.size()); num b = a; if (c.coin()) { b = gen(c, (int)a.size()); size_t k = c.below(a.size()); for (size_t i = k; i < a.size(); i++) b[i] = a[i]; } return b; }
template<typename D> static void ring(pbt::Ctx& c) {
    const int B = D::type_bits, n = B / 8; num a = gen(c, n), b = near(c, a); c.show("bits", B); c.show("a", hex(a)); c.show("b", hex(b)); const D x = mk<D>(a), y = mk<D>(b); int z0 = 0;
    CHECK_EQ(H(x), hex(a)); CHECK_EQ(x.to_string16(), hex(a)); uint64_t lo = 0; for (int i = 0; i < std::min(n, 8); i++) lo |= uint64_t(a[i]) << (8 * i); CHECK_EQ(x.to_uint64(), lo); CHECK_EQ(x.is_negative(), neg(a));
    int cy = (int)c.below(2), cx = cy, bw = cy, bx = cy; D t = x; num s = add(a, b, cx); CHECK_EQ(&t.assign_adc(y, cy), &t); CHECK_EQ(H(t), hex(s)); CHECK_EQ(cy, cx); t = x; s = sub(a, b, bx); CHECK_EQ(&t.assign_sbb(y, bw), &t); CHECK_EQ(H(t), hex(s)); CHECK_EQ(bw, bx);
    z0 = 0; s = add(a, b, z0); CHECK_EQ(H(x + y), hex(s)); t = x; CHECK_EQ(&(t += y), &t); CHECK_EQ(H(t), hex(s)); z0 = 0; s = sub(a, b, z0); CHECK_EQ(H(x - y), hex(s)); t = x; CHECK_EQ(&(t -= y), &t); CHECK_EQ(H(t), hex(s)); z0 = 0; s = sub(num(n), a, z0); CHECK_EQ(H(-x), hex(s)); t = x; t.negate(); CHECK_EQ(H(t), hex(s)); CHECK_EQ(H(+x), hex(a)); t = x; t += t; z0 = 0; CHECK_EQ(H(t), hex(add(a, a, z0))); t = x; t -= t; CHECK_EQ(H(t), hex(num(n)));
    num one = of(1, n); z0 = 0; num inc = add(a, one, z0); z0 = 0; num dec = sub(a, one, z0); t = x; CHECK_EQ(H(++t), hex(inc)); CHECK_EQ(H(t), hex(inc)); t = x; CHECK_EQ(H(--t), hex(dec)); CHECK_EQ(H(t), hex(dec)); t = x; CHECK_EQ(H(t++), hex(a)); CHECK_EQ(H(t), hex(inc)); t = x; CHECK_EQ(H(t--), hex(a)); CHECK_EQ(H(t), hex(dec));
    num p = mul(a, b), pl(p.begin(), p.begin() + n); CHECK_EQ(H(D::unsigned_mul_full(x, y)), hex(p)); CHECK_EQ(H(D::unsigned_mul(x, y)), hex(pl)); CHECK_EQ(H(x * y), hex(pl)); t = x; CHECK_EQ(&(t *= y), &t); CHECK_EQ(H(t), hex(pl)); t = x; t *= t; p = mul(a, a); p.resize(n); CHECK_EQ(H(t), hex(p));
    num q(n); for (int i = 0; i < n; i++) q[i] = a[i] & b[i]; CHECK_EQ(H(x & y), hex(q)); t = x; t &= y; CHECK_EQ(H(t), hex(q)); for (int i = 0; i < n; i++) q[i] = a[i] | b[i]; CHECK_EQ(H(x | y), hex(q)); t = x; t |= y; CHECK_EQ(H(t), hex(q)); for (int i = 0; i < n; i++) q[i] = a[i] ^ b[i]; CHECK_EQ(H(x ^ y), hex(q)); t = x; t ^= y; CHECK_EQ(H(t), hex(q)); CHECK_EQ(H(~x), hex(inv(a)));
    bool eq = a == b; CHECK_EQ(x == y, eq); CHECK_EQ(x != y, !eq); CHECK_EQ(x < y, slt(a, b)); CHECK_EQ(x > y, slt(b, a)); CHECK_EQ(x <= y, !slt(b, a)); CHECK_EQ(x >= y, !slt(a, b)); CHECK_EQ(x.unsigned_lt(y), ult(a, b)); CHECK_EQ(x.unsigned_gt(y), ult(b, a)); CHECK_EQ(x.unsigned_lte(y), !ult(b, a)); CHECK_EQ(x.unsigned_gte(y), !ult(a, b));
    int k = c.chance(1, 3) ? c.pick<int>({ 0, 1, B / 2 - 1, B / 2, B / 2 + 1, B - 1, B, B + 1, 2 * B }) : (int)c.range(0, B + 2); SHOW(k); CHECK_EQ(H(x << k), hex(shift(a, -k, false))); t = x; CHECK_EQ(&(t <<= k), &t); CHECK_EQ(H(t), hex(shift(a, -k, false))); CHECK_EQ(H(x >> k), hex(shift(a, k, neg(a)))); t = x; CHECK_EQ(&(t >>= k), &t); CHECK_EQ(H(t), hex(shift(a, k, neg(a)))); t = x; CHECK_EQ(H(t.assign_unsigned_shr(k)), hex(shift(a, k, false))); int e = -(int)c.below(2); t = x; CHECK_EQ(H(t.assign_extended_shr(k, e)), hex(shift(a, k, e != 0)));
    int lz = 0; while (lz < B && !bit(a, B - 1 - lz, false)) lz++; CHECK_EQ(x.leading_zeros_count(), lz);
    int v = c.any<int32_t>(); SHOW(v); CHECK_EQ(H(D(v)), hex(of(v, n))); t = v; CHECK_EQ(H(t), hex(of(v, n))); CHECK_EQ(H(D()), hex(num(n))); CHECK_EQ(H(zeroOf(x)), hex(num(n))); CHECK_EQ(H(identityOf(x)), hex(one)); typename D::half_type h = x.lo; num he(a.begin(), a.begin() + n / 2); bool hn = neg(he); he.resize(n, hn ? 0xFF : 0); CHECK_EQ(H(D(h)), hex(he)); CHECK_EQ(H(D(x.hi, x.lo)), hex(a));
    int pw = (int)c.below(n > 32 ? 6 : 40); num r = one; for (int i = 0; i < pw; i++) { r = mul(r, a); r.resize(n); } CHECK_EQ(H(powT(x, pw)), hex(r));
    c.nontrivial(hex(a) != hex(num(n)) && a != b); c.label("both halves full", neg(a) && neg(b)); c.label("equal high half", std::equal(a.begin() + n / 2, a.end(), b.begin() + n / 2));
}
PROP(narrow, 230000, 5750000) { switch (c.below(4)) { case 0: ring<a16>(c); break; case 1: ring<a32>(c); break; case 2: ring<b32>(c); break; default: ring<b64>(c); } }
PROP(wide, 93000, 2325000) { switch (c.below(6)) { case 0: ring<a64>(c); break; case 1: ring<c64>(c); break; case 2: ring<c128>(c); break; case 3: ring<d128>(c); break; case 4: ring<d256>(c); break; default: ring<a128>(c); } }
PROP(widest, 41000, 1025000) { switch (c.below(2)) { case 0: ring<d512>(c); break; default: ring<c256>(c); } }
PROP(mul_16, 12000000, 300000000) { unsigned x = (unsigned)c.below(65536), y = (unsigned)c.below(65536); SHOW(x); SHOW(y); a32 r = a16::unsigned_mul_full(a16(p8(uint8_t(x >> 8)), p8(uint8_t(x))), a16(p8(uint8_t(y >> 8)), p8(uint8_t(y)))); CHECK_EQ(r.to_uint64(), (uint64_t)x * y); c.nontrivial(x > 255 && y > 255); }
// the wrapper around a machine word
template<typename P, typename S, typename U> static void prim(pbt::Ctx& c) {
    S v = c.any<S>(), w = c.chance(1, 4) ? v : c.any<S>(); c.show("v", (int64_t)v); c.show("w", (int64_t)w); const P x(v), y(w); const int B = sizeof(S) * 8; CHECK_EQ((int)P::type_bits, B); CHECK_EQ(P(U(v)).v, v); CHECK_EQ(P().v, S(0));
    CHECK_EQ((x + y).v, S(U(v) + U(w))); CHECK_EQ((x - y).v, S(U(v) - U(w))); CHECK_EQ((x * y).v, S(uint64_t(v) * uint64_t(w))); CHECK_EQ(P::unsigned_mul(x, y).v, S(uint64_t(v) * uint64_t(w))); CHECK_EQ((-x).v, S(0 - U(v))); CHECK_EQ((+x).v, v); CHECK_EQ((~x).v, S(~v)); CHECK_EQ((x & y).v, S(v & w)); CHECK_EQ((x | y).v, S(v | w)); CHECK_EQ((x ^ y).v, S(v ^ w));
    if (w != 0) { P r; CHECK_EQ(P::unsigned_div(x, y, &r).v, S(U(v) / U(w))); CHECK_EQ(r.v, S(U(v) % U(w))); CHECK_EQ(P::unsigned_div(x, y).v, S(U(v) / U(w))); if (!(w == -1 && v == std::numeric_limits<S>::min())) { CHECK_EQ((x / y).v, S(v / w)); CHECK_EQ((x % y).v, S(v % w)); P t = x; t /= y; CHECK_EQ(t.v, S(v / w)); t = x; t %= y; CHECK_EQ(t.v, S(v % w)); } }
    P t = x; t += y; CHECK_EQ(t.v, S(U(v) + U(w))); t = x; t -= y; CHECK_EQ(t.v, S(U(v) - U(w))); t = x; t *= y; CHECK_EQ(t.v, S(uint64_t(v) * uint64_t(w))); t = x; t &= y; CHECK_EQ(t.v, S(v & w)); t = x; t |= y; CHECK_EQ(t.v, S(v | w)); t = x; t ^= y; CHECK_EQ(t.v, S(v ^ w)); t = x; CHECK_EQ((t++).v, v); CHECK_EQ(t.v, S(U(v) + 1)); t = x; CHECK_EQ((t--).v, v); CHECK_EQ(t.v, S(U(v) - 1)); t = x; CHECK_EQ((++t).v, S(U(v) + 1)); t = x; CHECK_EQ((--t).v, S(U(v) - 1));
    CHECK_EQ(x == y, v == w); CHECK_EQ(x != y, v != w); CHECK_EQ(x < y, v < w); CHECK_EQ(x > y, v > w); CHECK_EQ(x <= y, v <= w); CHECK_EQ(x >= y, v >= w); CHECK_EQ(x.unsigned_lt(y), U(v) < U(w)); CHECK_EQ(x.unsigned_gt(y), U(v) > U(w)); CHECK_EQ(x.unsigned_lte(y), U(v) <= U(w)); CHECK_EQ(x.unsigned_gte(y), U(v) >= U(w)); CHECK_EQ(x.is_negative(), v < 0); CHECK_EQ(x.to_uint64(), (uint64_t)U(v));
    int k = (int)c.range(0, B - 1); SHOW(k); CHECK_EQ((x << k).v, S(uint64_t(v) << k)); CHECK_EQ((x >> k).v, S(v >> k)); t = x; t <<= k; CHECK_EQ(t.v, S(uint64_t(v) << k)); t = x; t >>= k; CHECK_EQ(t.v, S(v >> k)); t = x; CHECK_EQ(t.assign_unsigned_shr(k).v, S(U(v) >> k)); if (k) { t = x; CHECK_EQ(t.assign_extended_shr(k, 0).v, S(U(v) >> k)); t = x; CHECK_EQ(t.assign_extended_shr(k, -1).v, S((U(v) >> k) | U(~uint64_t(0) << (B - k)))); }
    int lz = 0; while (lz < B && !((U(v) >> (B - 1 - lz)) & 1)) lz++; CHECK_EQ(x.leading_zeros_count(), lz); char buf[20]; snprintf(buf, sizeof buf, "%0*llx", B / 4, (unsigned long long)U(v)); CHECK_EQ(x.to_string16(), std::string(buf)); auto f = P::unsigned_mul_full(x, y); unsigned __int128 full = (unsigned __int128)U(v) * U(w); CHECK_EQ(U(f.lo.v), U(full)); CHECK_EQ(U(f.hi.v), U(full >> B)); c.nontrivial(v != 0 && v != w);
}
PROP(words, 4600000, 115000000) { switch (c.below(4)) { case 0: prim<p8, int8_t, uint8_t>(c); break; case 1: prim<p16, int16_t, uint16_t>(c); break; case 2: prim<p32, int32_t, uint32_t>(c); break; default: prim<p64, int64_t, uint64_t>(c); } }

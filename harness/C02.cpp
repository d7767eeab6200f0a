// C02: bit operations agree with the per-bit definition for every width.
#include "altruct/algorithm/math/bits.h"
#include "ref.h"
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

template<typename T> static std::vector<int> bits_of(T x) {
    typedef typename std::make_unsigned<T>::type U;
    std::vector<int> b(sizeof(T) * 8);
    for (size_t i = 0; i < b.size(); i++) b[i] = int((u64(U(x)) >> i) & 1);
    return b;
}
template<typename T> static T from_bits(const std::vector<int>& b) {
    u64 r = 0; for (size_t i = 0; i < b.size(); i++) r |= u64(b[i]) << i;
    return T(r);
}
template<typename T> static T gen(Ctx& c) {
    if (c.chance(1, 4)) { // few ones / few zeros / a run
        u64 v = 0; int n = (int)c.range(0, 3), W = sizeof(T) * 8;
        for (int i = 0; i < n; i++) v |= 1ull << c.range(0, W - 1);
        if (c.coin()) v = ~v;
        return T(v);
    }
    return c.any<T>();
}
template<typename T> static void unsigned_ops(Ctx& c) {
    const int W = sizeof(T) * 8;
    T x = gen<T>(c), y = gen<T>(c), m = gen<T>(c); int p = (int)c.range(0, W - 1);
    SHOW(W); c.show("x", (u64)x); c.show("y", (u64)y); SHOW(p);
    c.nontrivial(x != 0);
    auto b = bits_of(x);
    int cnt = 0, hi = -1, lo = -1;
    for (int i = 0; i < W; i++) if (b[i]) { cnt++; hi = i; if (lo < 0) lo = i; }
    CHECK_EQ((int)bit_size<T>::value, W);
    CHECK_EQ(bit_cnt1(x), cnt);
    CHECK_EQ(ilog2(x), hi < 0 ? 0 : hi);
    CHECK_EQ(lzc(x), W - 1 - hi);
    CHECK_EQ(tzc(x), lo < 0 ? W : lo);
    CHECK_EQ(hi_bit(x), hi < 0 ? T(0) : T(T(1) << hi));
    CHECK_EQ(lo_bit(x), lo < 0 ? T(0) : T(T(1) << lo));
    auto r = b; std::reverse(r.begin(), r.end());
    CHECK_EQ(bit_reverse(x), from_bits<T>(r));
    CHECK_EQ((bool)is_pow2(x), cnt <= 1); CHECK_EQ((bool)is_not_pow2(x), cnt > 1);
    // smallest power of two strictly bigger, 0 (= 2^W) when it does not fit
    CHECK_EQ(next_pow2(x), hi < 0 ? T(1) : hi == W - 1 ? T(0) : T(T(1) << (hi + 1)));
    CHECK_EQ(or_down(x), hi < 0 ? T(0) : T(((u64(1) << hi) - 1) | (u64(1) << hi)));
    auto xd = b; for (int i = W - 2; i >= 0; i--) xd[i] ^= xd[i + 1];
    CHECK_EQ(xor_down(x), from_bits<T>(xd)); CHECK_EQ(gray_to_bin(x), from_bits<T>(xd));
    CHECK_EQ(gray_to_bin(bin_to_gray(x)), x); CHECK_EQ(bin_to_gray(gray_to_bin(x)), x);
    CHECK_EQ(bit_cnt1(T(bin_to_gray(x) ^ bin_to_gray(T(x + 1)))), 1);
    CHECK_EQ(neg(x), T(T(0) - x));
    CHECK_EQ((T)get_bit(x, p), (T)b[p]);
    auto s = b; s[p] = 1; CHECK_EQ(T(set_bit(x, p)), from_bits<T>(s));
    s[p] = 0; CHECK_EQ(T(clear_bit(x, p)), from_bits<T>(s));
    s[p] = !b[p]; CHECK_EQ(T(flip_bit(x, p)), from_bits<T>(s));
    s = b; s.erase(s.begin() + p); s.push_back(0); CHECK_EQ(T(erase_bit(x, p)), from_bits<T>(s));
    CHECK_EQ(T(make_bit<T>(p)), T(T(1) << p)); CHECK_EQ(T(make_ones<T>(p)), T((T(1) << p) - 1));
    auto by = bits_of(y), bm = bits_of(m); s = b;
    for (int i = 0; i < W; i++) if (bm[i]) s[i] = by[i];
    CHECK_EQ(T(mix_bits(x, y, m)), from_bits<T>(s));
    // sign-magnitude conversion is an involution and keeps the magnitude
    T sm = sign_mag(x), H = T(T(1) << (W - 1));
    if (!(x & H)) CHECK_EQ(sm, x);
    else if (x != H) { CHECK_EQ(T(sm & ~H), T(T(0) - x)); CHECK((sm & H) != 0); }
    if (x != H) CHECK_EQ(sign_mag(sm), x);
}
PROP(unsigned_all_widths, 1900000, 47500000) {
    switch (c.below(4)) {
    case 0: unsigned_ops<uint8_t>(c); break; case 1: unsigned_ops<uint16_t>(c); break;
    case 2: unsigned_ops<uint32_t>(c); break; case 3: unsigned_ops<uint64_t>(c); break;
    }
}
template<typename T> static void signed_ops(Ctx& c) {
    T x = c.integer(0, std::numeric_limits<T>::max()); const int W = sizeof(T) * 8;
    SHOW(W); c.show("x", (i64)x); c.nontrivial(x > 1);
    auto b = bits_of(x); int hi = -1, lo = -1;
    for (int i = 0; i < W; i++) if (b[i]) { hi = i; if (lo < 0) lo = i; }
    CHECK_EQ(ilog2(x), hi < 0 ? 0 : hi);
    CHECK_EQ(hi_bit(x), hi < 0 ? T(0) : T(T(1) << hi)); CHECK_EQ(lo_bit(x), lo < 0 ? T(0) : T(T(1) << lo));
    CHECK_EQ((bool)is_pow2(x), hi == lo); CHECK_EQ(gray_to_bin(bin_to_gray(x)), x);
    if (hi < W - 2) CHECK_EQ(next_pow2(x), hi < 0 ? T(1) : T(T(1) << (hi + 1)));
}
PROP(signed_nonnegative, 5800000, 145000000) {
    switch (c.below(4)) {
    case 0: signed_ops<int8_t>(c); break; case 1: signed_ops<int16_t>(c); break;
    case 2: signed_ops<int32_t>(c); break; case 3: signed_ops<int64_t>(c); break;
    }
    i64 x = c.any<i64>(); CHECK_EQ(ilog2(x), x == 0 ? 0 : 63 - __builtin_clzll((u64)x));
}
// all 8 and 16-bit values, in one case each
PROP(exhaustive_16, 64, 64) {
    int blk = (int)c.range(0, 63); SHOW(blk); c.nontrivial();
    for (int v = blk * 1024; v < (blk + 1) * 1024; v++) {
        uint16_t x = (uint16_t)v; uint16_t r = 0; for (int i = 0; i < 16; i++) if (x >> i & 1) r |= 1 << (15 - i);
        CHECK_EQ(bit_reverse(x), r); CHECK_EQ(bit_cnt1(x), __builtin_popcount(v)); CHECK_EQ(ilog2(x), v ? 31 - __builtin_clz(v) : 0);
        uint8_t y = (uint8_t)v; uint8_t q = 0; for (int i = 0; i < 8; i++) if (y >> i & 1) q |= 1 << (7 - i);
        CHECK_EQ(bit_reverse(y), q); CHECK_EQ(bit_cnt1(y), __builtin_popcount(y)); CHECK_EQ(ilog2(y), y ? 31 - __builtin_clz(y) : 0);
    }
}
template<typename T> static void combos(Ctx& c) {
    int W = sizeof(T) * 8; int size = (int)c.range(1, W - 1);
    T x = c.uinteger(0, make_ones<T>(size));
    if (c.chance(1, 3)) { int k = (int)c.range(1, size); x = make_ones<T>(k) << (size - k); if (c.coin() && k < size) x = T(make_ones<T>(k)); }
    if (x == 0) x = 1;
    SHOW(size); c.show("x", (u64)x);
    // reference successor: next larger number with the same number of ones below 2^size, else wrap to the smallest
    int k = __builtin_popcountll((u64)x);
    std::vector<int> b = bits_of(x); b.resize(size); std::reverse(b.begin(), b.end());
    bool more = std::next_permutation(b.begin(), b.end()); std::reverse(b.begin(), b.end());
    u64 e = 0; for (int i = 0; i < size; i++) e |= u64(b[i]) << i;
    T y = x; bool r = next_combination(y, size);
    c.nontrivial(k > 1 && k < size); c.label("wrapped", !more);
    CHECK_EQ(r, more); CHECK_EQ((u64)y, e);
}
PROP(next_combination_bits, 5500000, 137500000) {
    switch (c.below(3)) { case 0: combos<uint32_t>(c); break; case 1: combos<uint64_t>(c); break; case 2: combos<uint16_t>(c); break; }
}
#include "altruct/algorithm/math/intrinsic.h"
template<typename T> static void overflow(Ctx& c) { // the sum of two values is the wrapped sum, and the flag tells whether it differs from the exact one
    T x = c.any<T>(), y = c.any<T>(), r = 0; if (c.chance(1, 4)) y = T(T(~x) + T(c.range(-1, 1))); c.show("x", (i64)x); c.show("y", (i64)y); __int128 s = (__int128)x + (__int128)y; bool of = add_overflow(x, y, &r); CHECK_EQ(r, T((unsigned __int128)s)); CHECK_EQ(of, (__int128)T((unsigned __int128)s) != s); c.nontrivial(of || r == std::numeric_limits<T>::max()); c.label("overflows", of);
}
PROP(sum_overflow, 100000, 2500000) { switch (c.below(8)) { case 0: overflow<u64>(c); break; case 1: overflow<uint32_t>(c); break; case 2: overflow<uint16_t>(c); break; case 3: overflow<uint8_t>(c); break; case 4: overflow<i64>(c); break; case 5: overflow<int32_t>(c); break; case 6: overflow<int16_t>(c); break; default: overflow<int8_t>(c); } }

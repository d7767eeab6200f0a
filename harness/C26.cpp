// C26: random number generators and range mappings.
#include "pbt.h"
#include <climits>
#include <cstdio>
#include <random>
#include <sstream>
#include "altruct/algorithm/random/random.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/algorithm/random/mersenne_twister.h"
using namespace altruct::random;
// init_by_array of the reference implementation, then the standard engine's recurrence
struct Ref { uint32_t s[624]; int i; void init(uint32_t x) { s[0] = x; for (int k = 1; k < 624; k++) s[k] = 1812433253u * (s[k - 1] ^ (s[k - 1] >> 30)) + (uint32_t)k; i = 624; } void init(const std::vector<uint32_t>& key) { init(19650218u); int a = 1, j = 0, n = (int)key.size(); for (int k = std::max(624, n); k; k--) { s[a] = (s[a] ^ ((s[a - 1] ^ (s[a - 1] >> 30)) * 1664525u)) + key[j] + (uint32_t)j; a++; j++; if (a >= 624) s[0] = s[623], a = 1; if (j >= n) j = 0; } for (int k = 623; k; k--) { s[a] = (s[a] ^ ((s[a - 1] ^ (s[a - 1] >> 30)) * 1566083941u)) - (uint32_t)a; a++; if (a >= 624) s[0] = s[623], a = 1; } s[0] = 0x80000000u; i = 624; }
    uint32_t next() { if (i == 624) { for (int k = 0; k < 624; k++) { uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0); } i = 0; } uint32_t y = s[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); } };
PROP(twister_sequence, 13000, 325000) {
    bool arr = c.coin(); std::vector<uint32_t> key(arr ? (c.chance(1, 5) ? c.range(600, 1300) : c.range(1, 8)) : 0); for (auto& x : key) x = c.any<uint32_t>(); uint32_t s = c.any<uint32_t>(); SHOW(s); if (key.size() < 20) SHOW(key); Ref r; if (arr) r.init(key); else r.init(s); mtrand g(s); if (arr) { if (c.coin()) g.seed(key.data(), (uint32_t)key.size()); else { mtrand h(key.data(), (uint32_t)key.size()); uint32_t buf[mtrand::SAVE]; h.save(buf); g.load(buf); } } else if (c.coin()) { g.randInt(); g.seed(s); }
    std::mt19937 std1(s); int n = (int)c.range(0, 2000); for (int i = 0; i < n; i++) { uint32_t e = r.next(); CHECK_EQ(g.randInt(), e); if (!arr) CHECK_EQ((uint32_t)std1(), e); } c.nontrivial(n > 624);
    // saving, loading, streaming and copying at this point all continue the same sequence
    mtrand a(1), b(2), d(3); uint32_t buf[mtrand::SAVE]; g.save(buf); a.load(buf); std::stringstream ss; ss << g; ss >> b; int k = (int)c.range(1, 800); mtrand cp(g); d.randInt(); d = g; std::vector<uint32_t> exp; for (int i = 0; i < k; i++) exp.push_back(r.next()); for (int i = 0; i < k; i++) { CHECK_EQ(a.randInt(), exp[i]); CHECK_EQ(b.randInt(), exp[i]); } mtrand* all[] = { &cp, &d, &g }; const char* who[] = { "a copy of the generator", "an assigned generator", "the copied generator" }; auto o = c.permutation(3); for (int w : o) for (int i = 0; i < k; i++) CHECK_MSG(all[w]->randInt() == exp[i], who[w] << " does not continue the sequence");
    if (c.coin()) { std::unique_ptr<mtrand> t(new mtrand(s)); Ref q; q.init(s); for (int i = (int)c.below(3); i > 0; i--) { t->randInt(); q.next(); } mtrand u(*t); t.reset(); CHECK_MSG(u.randInt() == q.next(), "a copy depends on the destroyed original"); }
}
PROP(twister_ranges, 500000, 12500000) {
    uint32_t s = c.any<uint32_t>(); SHOW(s); mtrand g(s), h(s), q(s); Ref r; r.init(s); int k = (int)c.range(1, 30); for (int i = 0; i < k; i++) { uint32_t n = c.any<uint32_t>(); int op = (int)c.below(8); c.show("op", op); c.show("n", n);
        switch (op) { case 0: { uint32_t x = g.randInt(n); CHECK_MSG(x <= n, "randInt(" << n << ") = " << x); uint32_t m = 0; while (m < n) m = m * 2 + 1; uint32_t y; do y = r.next() & m; while (y > n); CHECK_EQ(x, y); break; } case 1: { double x = g.rand(); uint32_t y = r.next(); CHECK(x >= 0 && x <= 1); CHECK_MSG(std::fabs(x - y / 4294967295.0) < 1e-15, "rand() = " << x); break; } case 2: { double x = g.randExc(); uint32_t y = r.next(); CHECK(x >= 0 && x < 1); CHECK_EQ(x, y / 4294967296.0); break; } case 3: { double x = g.randDblExc(); uint32_t y = r.next(); CHECK(x > 0 && x < 1); CHECK_EQ(x, (y + 0.5) / 4294967296.0); break; } case 4: { double x = g.rand53(); uint32_t a = r.next() >> 5, b = r.next() >> 6; CHECK(x >= 0 && x < 1); CHECK_EQ(x, (double)((uint64_t)a << 26 | b) / 9007199254740992.0); break; }
            case 5: { double w = c.pick<double>({ 0.5, 1, 1e9 }); double x = g.rand(w); r.next(); CHECK(x >= 0 && x <= w); x = g.randExc(w); r.next(); CHECK(x >= 0 && x < w); x = g.randDblExc(w); r.next(); CHECK(x > 0 && x < w); break; } case 6: { double x = g.randNorm(5, 0); r.next(); r.next(); CHECK_EQ(x, 5.0); x = g.randNorm(1, 2); r.next(); r.next(); CHECK(std::isfinite(x) && std::fabs(x - 1) < 2 * 8); break; } default: { double x = g(); r.next(); CHECK(x >= 0 && x <= 1); } } } c.nontrivial(k > 5); (void)h; (void)q;
}
static uint64_t xs(uint64_t& x) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ULL; }
PROP(xorshift, 1000000, 25000000) {
    uint64_t s = c.any<uint64_t>(); if (!s) s = 1; SHOW(s); bool dflt = c.chance(1, 6); if (dflt) s = 1; xorshift_64star a = dflt ? xorshift_64star() : xorshift_64star(s); xorshift_1024star b = dflt ? xorshift_1024star() : xorshift_1024star(s); uint64_t x = s, y = s, st[16]; for (auto& q : st) q = xs(y); int p = 0; if (!dflt && c.chance(1, 4)) { for (auto& q : st) q = c.any<uint64_t>(); if (c.coin()) b.seed(st); else b = xorshift_1024star(st); }
    auto nb = [&] { uint64_t s0 = st[p]; p = (p + 1) % 16; uint64_t s1 = st[p]; s1 ^= s1 << 31; st[p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30); return st[p] * 1181783497276652981ULL; };
    int k = (int)c.range(1, 60); for (int i = 0; i < k; i++) { uint64_t lo = c.any<uint64_t>(), hi = c.coin() ? lo + c.range(0, 20) : c.any<uint64_t>(); if (lo > hi) std::swap(lo, hi); int op = (int)c.below(5); c.show("op", std::make_tuple(op, lo, hi)); auto in = [&](uint64_t v) { return lo <= v && v <= hi; };
        if (op == 0) { CHECK_EQ(a.next(), xs(x)); CHECK_EQ(b.next(), nb()); } else if (op == 1) { CHECK_EQ(a(), xs(x)); CHECK_EQ(b(), nb()); } else if (op == 2) { uint64_t v = a.next(lo, hi), w = b.next(lo, hi); CHECK(in(v) && in(w)); unsigned __int128 wd = (unsigned __int128)hi - lo + 1; CHECK_EQ(v, lo + (uint64_t)(xs(x) % wd)); CHECK_EQ(w, lo + (uint64_t)(nb() % wd)); }
        else if (op == 3) { double v = a.next_0_1(), w = b.next_0_1(); CHECK(v >= 0 && v <= 1 && w >= 0 && w <= 1); CHECK_MSG(std::fabs(v - (double)xs(x) / 18446744073709551616.0) < 1e-15 && std::fabs(w - (double)nb() / 18446744073709551616.0) < 1e-15, "next_0_1"); }
        else { uint64_t v = a.next_uniform(lo, hi), w = b.next_uniform(lo, hi); CHECK(in(v) && in(w)); unsigned __int128 wd = (unsigned __int128)hi - lo + 1, lim = ((unsigned __int128)1 << 64) / wd * wd; auto ref = [&](std::function<uint64_t()> f) { uint64_t z; int it = 0; do z = f(); while (z >= lim && ++it < 20); return lo + (uint64_t)(z % wd); }; CHECK_EQ(v, ref([&] { return xs(x); })); CHECK_EQ(w, ref(nb)); } }
    xorshift_64star a2 = a; xorshift_1024star b2 = b; CHECK_EQ(a2.next(), a.next()); CHECK_EQ(b2.next(), b.next()); a2.seed(s); b2.seed(s); CHECK_EQ(a2.next(), xorshift_64star(s).next()); { xorshift_1024star f(s); for (int i = 0; i < 20; i++) CHECK_EQ(b2.next(), f.next()); } CHECK_EQ(xorshift_64star::min(), (uint64_t)0); CHECK_EQ(xorshift_64star::max(), ~(uint64_t)0); CHECK_EQ(xorshift_1024star::min(), (uint64_t)0); CHECK_EQ(xorshift_1024star::max(), ~(uint64_t)0); { uint64_t z[16]; for (auto& q : z) q = c.any<uint64_t>(); xorshift_1024star f(z); b2.seed(z); for (int i = 0; i < 20; i++) CHECK_MSG(b2.next() == f.next(), "seeding a used generator with a state"); } c.nontrivial(k > 5);
}
// the mapping of one word to a range: inside, every value reachable, and as even as possible; exhaustive for 8 bit words
template<typename U, typename V> static void mapping(pbt::Ctx& c) { V lo = c.any<V>(), hi = c.any<V>(); if (lo > hi) std::swap(lo, hi); SHOW(lo); SHOW(hi); U v = c.any<U>(); SHOW(v); V r = integer_to_range<U, V>(v, lo, hi); CHECK_MSG(lo <= r && r <= hi, "mapped to " << (int64_t)r); c.nontrivial(lo < hi); unsigned __int128 w = (unsigned __int128)((__int128)hi - lo) + 1; if (w <= (unsigned __int128)std::numeric_limits<U>::max() && !(std::is_signed<V>::value && hi - (__int128)lo >= std::numeric_limits<V>::max())) CHECK_EQ((__int128)r == (__int128)lo + (__int128)((unsigned __int128)v % w), true); }
PROP(range_mapping, 7300000, 182500000) { switch (c.below(6)) { case 0: mapping<uint8_t, uint8_t>(c); break; case 1: mapping<uint16_t, uint16_t>(c); break; case 2: mapping<uint32_t, uint32_t>(c); break; case 3: mapping<uint64_t, uint64_t>(c); break; case 4: mapping<uint64_t, uint32_t>(c); break; default: mapping<uint32_t, uint16_t>(c); } }
PROP(exhaustive_bytes, 470000, 11750000) { uint8_t lo = c.any<uint8_t>(), hi = c.any<uint8_t>(); if (lo > hi) std::swap(lo, hi); SHOW(lo); SHOW(hi); int w = hi - lo + 1; std::vector<int> cnt(256), uni(256); int mult = biggest_multiple<uint8_t>((uint8_t)w); if (!mult) mult = 256; CHECK_EQ(mult, 256 / w * w); for (int v = 0; v < 256; v++) { cnt[integer_to_range<uint8_t>((uint8_t)v, lo, hi)]++; int first = v; uint8_t n = uniform_next<uint8_t>([&] { return (uint8_t)(first >= 0 ? std::exchange(first, -1) : 0); }, lo, hi); if (v < mult) uni[n]++; double d = integer_to_double_0_1<uint8_t>((uint8_t)v); CHECK(d >= 0 && d <= 1 && std::fabs(d - v / 255.0) < 1e-12); } for (int x = 0; x < 256; x++) { bool in = lo <= x && x <= hi; CHECK_EQ(uni[x], in ? mult / w : 0); CHECK_MSG(in ? cnt[x] == 256 / w || cnt[x] == 256 / w + 1 : cnt[x] == 0, "value " << x << " is hit " << cnt[x] << " times"); } c.nontrivial(w > 1 && 256 % w); }
PROP(uniform_rejects, 3100000, 77500000) { uint32_t lo = c.any<uint32_t>(), hi = c.any<uint32_t>(); if (lo > hi) std::swap(lo, hi); SHOW(lo); SHOW(hi); uint64_t w = (uint64_t)hi - lo + 1, mult = (uint64_t(1) << 32) / w * w; CHECK_EQ((uint64_t)biggest_multiple<uint32_t>((uint32_t)w), mult & 0xffffffffu); std::vector<uint32_t> seq; int bad = c.chance(1, 8) ? 25 : (int)c.below(4); for (int i = 0; i < bad && mult < (uint64_t(1) << 32); i++) seq.push_back((uint32_t)(mult + c.any<uint64_t>() % ((uint64_t(1) << 32) - mult))); bad = (int)seq.size(); uint32_t good = (uint32_t)(c.any<uint64_t>() % mult); seq.push_back(good); size_t i = 0; uint32_t r = uniform_next<uint32_t>([&] { CHECK_MSG(i < seq.size(), "more values consumed than needed"); return seq[i++]; }, lo, hi); CHECK(lo <= r && r <= hi); if (bad < 20) { CHECK_EQ(r, (uint32_t)(lo + good % w)); CHECK_EQ(i, seq.size()); } else CHECK_EQ(i, (size_t)20); c.nontrivial(bad > 0); uint64_t w64 = c.any<uint64_t>(); if (w64) CHECK_EQ(biggest_multiple<uint64_t>(w64), (uint64_t)(((unsigned __int128)1 << 64) / w64 * w64)); double d = integer_to_double_0_1<uint32_t>(lo), e = integer_to_double_0_1<uint32_t>(hi); CHECK(0 <= d && d <= e && e <= 1); if (lo < hi) CHECK(d < e); }

// C36: bit_vector against std::vector<int> of bits, for every word type.
#include "pbt.h"
#include <algorithm>
#include "altruct/structure/container/bit_vector.h"
using namespace altruct::container;
typedef std::vector<int> M;
template<class W> struct H {
    typedef bit_vector<W> V; pbt::Ctx& c; static const int L = sizeof(W) * 8;
    size_t len() { int k = (int)c.weighted({ 4, 3, 2, 1 }); return k == 0 ? c.range(0, L * 3) : k == 1 ? std::max<int64_t>(0, (int64_t)L * c.range(0, 4) + c.range(-1, 1)) : k == 2 ? c.range(0, 12) : c.range(0, 400); }
    M bits(size_t n) { M m(n); int k = (int)c.below(3); for (auto& x : m) x = k == 0 ? (int)c.below(2) : k == 1 ? c.chance(1, 8) : !c.chance(1, 8); return m; }
    V make(const M& m) { int k = (int)c.below(4); if (k == 3) { if (m.size() == 3) return V{ (W)m[0], (W)m[1], (W)m[2] }; if (m.size() == 5) return V{ (W)m[0], (W)m[1], (W)m[2], (W)m[3], (W)m[4] }; k = 0; } if (k == 0) return V(m.begin(), m.end()); V v(k == 1 ? m.size() : 0); for (size_t i = 0; i < m.size(); i++) if (k == 1) v.set(i, m[i]); else v.push_back(m[i]); return v; }
    void same(const V& v, const M& m, const char* what) { CHECK_MSG(v.size() == m.size(), what << ": size " << v.size() << " expected " << m.size()); for (size_t i = 0; i < m.size(); i++) CHECK_MSG(v.bit_at(i) == m[i], what << ": bit " << i << " of " << m.size() << " is " << v.bit_at(i)); }
    W wordat(const M& m, size_t pos) { W w = 0; for (int k = 0; k < L && pos + k < m.size(); k++) w |= (W)((W)m[pos + k] << k); return w; }
    std::string str(const M& m, size_t b, size_t e) { std::string s; for (; b < e; b++) s += (char)('0' + m[b]); return s; }
    void run() { size_t n = len(), n2 = c.coin() ? n : len(); M a = bits(n), b = bits(n2); if (c.chance(1, 4) && n && n2) { b = a; b.resize(n2); if (c.coin()) b[c.below(n2)] ^= 1; } V x = make(a), y = make(b); const V& kx = x; const V& ky = y; SHOW((int)L); SHOW(n); SHOW(n2); same(x, a, "construct"); same(y, b, "construct"); size_t steps = c.range(1, 20); bool mut = false;
        for (size_t s = 0; s < steps; s++) { size_t n = a.size(); size_t p = c.range(0, n), q = c.range(p, n); if (c.chance(1, 3)) { p = p / L * L; q = std::max(p, q / L * L); } int op = (int)c.below(17); c.show("op", op); SHOW(p); SHOW(q);
            switch (op) {
            case 0: if (n) { size_t i = c.below(n); int v = (int)c.range(-1, 1); x.set(i, v); a[i] = v < 0 ? !a[i] : v; } break;
            case 1: if (n) { size_t i = c.below(n); int v = (int)c.below(2), h = (int)c.below(4); if (h == 0) x[i] = v, a[i] = v; else if (h == 1) x[i] ^= v, a[i] ^= v; else if (h == 2) x[i] |= v, a[i] |= v; else x[i] &= v, a[i] &= v; CHECK_EQ((int)x[i], a[i]); } break;
            case 2: { int h = (int)c.below(4); if (h == 0) { int v = (int)c.below(2); x.push_back(v); a.push_back(v); } else if (h == 1 && n) { x.pop_back(); a.pop_back(); } else if (h == 2) { size_t m = len(); x.resize(m); a.resize(m); } else { size_t m = len(); x.reserve(m); if (m > a.size()) a.resize(m); } break; }
            case 3: { int h = (int)c.below(3), inplace = (int)c.below(2); M r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) { int u = i < a.size() ? a[i] : 0, w = i < b.size() ? b[i] : 0; r[i] = h == 0 ? u & w : h == 1 ? u | w : u ^ w; } V z = h == 0 ? kx & ky : h == 1 ? kx | ky : kx ^ ky; same(z, r, "logical"); if (inplace) { if (h == 0) x &= y; else if (h == 1) x |= y; else x ^= y; a = r; } break; }
            case 4: { V z = ~kx; M r = a; for (auto& t : r) t ^= 1; same(z, r, "~"); if (c.coin()) x = z, a = r; break; }
            case 5: case 6: { size_t k = c.weighted({ 3, 1, 1 }) == 0 ? c.range(0, n + 2) : c.coin() ? L * c.range(0, 5) : c.range(0, 3 * n + 3 * L); c.show("shift by", k); bool left = op == 5; M r(n); for (size_t i = 0; i < n; i++) { if (left) r[i] = i >= k ? a[i - k] : 0; else r[i] = i + k < n ? a[i + k] : 0; } V z = left ? kx << (int)k : kx >> (int)k; same(z, r, left ? "<<" : ">>"); if (c.coin()) { if (left) x <<= (int)k; else x >>= (int)k; a = r; } break; }
            case 7: { int h = (int)c.below(4); if (h == 0) x.apply(p, q, V::op_set0); else if (h == 1) x.apply(p, q, V::op_set1); else if (h == 2) x.apply(p, q, V::op_nop); else x.apply(p, q, V::op_flip, c.coin()); for (size_t i = p; i < q; i++) a[i] = h == 0 ? 0 : h == 1 ? 1 : h == 2 ? a[i] : !a[i]; break; }
            case 8: case 9: { bool self = op == 9; const M& o = self ? a : b; if (q - p > o.size()) q = p + o.size(); size_t p2 = c.range(0, o.size() - (q - p)); c.show("from", p2); int h = (int)c.below(8); auto f = [&](W (*g)(W, W, int)) { V::apply(x, p, self ? x : y, p2, q - p, g); }; M r = a; for (size_t i = p; i < q; i++) { int u = a[i], w = o[i - p + p2]; r[i] = h == 0 ? w : h == 1 ? !w : h == 2 ? u & w : h == 3 ? u | w : h == 4 ? u ^ w : h == 5 ? !(u & w) : h == 6 ? !(u | w) : u == w; } f(h == 0 ? V::op_set : h == 1 ? V::op_setn : h == 2 ? V::op_and : h == 3 ? V::op_or : h == 4 ? V::op_xor : h == 5 ? V::op_nand : h == 6 ? V::op_nor : V::op_eq); a = r; break; }
            case 10: x.reverse(p, q); std::reverse(a.begin() + p, a.begin() + q); break;
            case 11: { size_t cuts[4]; for (auto& t : cuts) t = c.range(0, n); std::sort(cuts, cuts + 4); if (c.coin()) x.swap(cuts[0], cuts[1], cuts[2], cuts[3]); else x.swap(cuts[2], cuts[3], cuts[0], cuts[1]); M r(a.begin(), a.begin() + cuts[0]); r.insert(r.end(), a.begin() + cuts[2], a.begin() + cuts[3]); r.insert(r.end(), a.begin() + cuts[1], a.begin() + cuts[2]); r.insert(r.end(), a.begin() + cuts[0], a.begin() + cuts[1]); r.insert(r.end(), a.begin() + cuts[3], a.end()); a = r; break; }
            case 12: { size_t k = c.range(0, 2 * n + 1); bool left = c.coin(); if (left) x.rotate_left(p, q, k); else x.rotate_right(p, q, k); if (q > p) { k %= q - p; std::rotate(a.begin() + p, a.begin() + (left ? p + k : q - k), a.begin() + q); } break; }
            case 13: { M o = c.coin() ? a : b; const V z = make(o); size_t l = std::min(q - p, o.size()), p2 = c.range(0, o.size() - l); size_t d = 0; for (size_t i = 0; i < l; i++) d += a[p + i] != o[p2 + i]; CHECK_EQ(V::hamming_distance(kx, p, z, p2, l), d); break; }
            case 14: { size_t p2 = c.range(0, b.size()), q2 = c.range(p2, b.size()); if (c.coin()) { p2 = std::min(p, b.size()); q2 = std::min(std::max(p2, q), b.size()); } M u(a.begin() + p, a.begin() + q), w(b.begin() + p2, b.begin() + q2); int e = u < w ? -1 : w < u; CHECK_EQ(V::compare(kx, p, q, ky, p2, q2), e); e = a < b ? -1 : b < a; CHECK_EQ(kx == ky, e == 0); CHECK_EQ(kx != ky, e != 0); CHECK_EQ(kx < ky, e < 0); CHECK_EQ(kx > ky, e > 0); CHECK_EQ(kx <= ky, e <= 0); CHECK_EQ(kx >= ky, e >= 0); CHECK(kx == x.clone()); break; }
            case 15: { CHECK_EQ(kx.to_string(p, q), str(a, p, q)); if (p < n) CHECK_EQ(kx.word_at(p), wordat(a, p)); break; }
            case 16: { std::string seen; kx.scan(p, q, [&](W w, size_t pos, int l) { CHECK_EQ(pos, seen.size()); for (int i = 0; i < l; i++) seen += (char)('0' + ((w >> i) & 1)); return true; }); CHECK_EQ(seen, str(a, p, q)); size_t l = std::min(q - p, b.size()), p2 = c.range(0, b.size() - l); std::string s1, s2; V::scan(kx, p, ky, p2, l, [&](W w1, W w2, int l) { for (int i = 0; i < l; i++) s1 += (char)('0' + ((w1 >> i) & 1)), s2 += (char)('0' + ((w2 >> i) & 1)); return true; }); CHECK_EQ(s1, str(a, p, p + l)); CHECK_EQ(s2, str(b, p2, p2 + l)); break; }
            }
            mut |= op < 13; same(x, a, "after the operation"); same(y, b, "the other one"); if (c.chance(1, 20)) { std::swap(x, y); std::swap(a, b); } }
        c.nontrivial(mut && n > (size_t)L); }
};
PROP(words_8, 910000, 22750000) { H<uint8_t>{ c }.run(); }
PROP(words_16, 760000, 19000000) { H<uint16_t>{ c }.run(); }
PROP(words_32, 690000, 17250000) { H<uint32_t>{ c }.run(); }
PROP(words_64, 550000, 13750000) { H<uint64_t>{ c }.run(); }

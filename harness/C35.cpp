// C35: segment_tree, lazy_segment_tree and fenwick_tree against plain arrays.
#include "pbt.h"
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/math/fenwick_tree.h"
using namespace altruct::container;
struct Af { int a, b; Af(int a = 1, int b = 0) : a(a), b(b) {} bool operator==(const Af& o) const { return a == o.a && b == o.b; } };
static Af mul(const Af& f, const Af& g) { return Af(f.a * g.a % 251, (f.a * g.b + f.b) % 251); }
struct OAf { static Af id() { return Af(); } static Af f(Af x, Af y) { return mul(x, y); } static Af gen(pbt::Ctx& c) { return Af((int)c.range(0, 250), (int)c.range(0, 250)); } static std::string s(const Af& x) { return std::to_string(x.a) + "x+" + std::to_string(x.b); } };
struct OMin { typedef int64_t T; static T id() { return INT64_MAX; } static T f(T x, T y) { return std::min(x, y); } static T gen(pbt::Ctx& c) { return c.any<int64_t>(); } static std::string s(T x) { return std::to_string(x); } };
struct OSum { typedef uint64_t T; static T id() { return 0; } static T f(T x, T y) { return x + y; } static T gen(pbt::Ctx& c) { return c.any<uint64_t>(); } static std::string s(T x) { return std::to_string(x); } };
struct OStr { typedef std::string T; static T id() { return ""; } static T f(T x, T y) { return x + y; } static T gen(pbt::Ctx& c) { return std::string(1, (char)c.range('a', 'z')); } static std::string s(T x) { return x; } };
template<class O, class T> void seg(pbt::Ctx& c) {
    size_t n = c.chance(1, 20) ? c.range(60, 300) : c.range(0, 33); std::vector<T> m(n, O::id()); bool fromv = c.coin(); if (fromv) for (auto& x : m) x = O::gen(c); if (n == 0) n = 1, m.assign(1, O::id()), fromv = c.coin(); SHOW(n); SHOW(fromv);
    segment_tree<T> t = fromv ? segment_tree<T>(m.begin(), m.end(), O::f, O::id()) : segment_tree<T>(n, O::f, O::id()); const auto& k = t; CHECK(t.size() >= n); size_t steps = c.range(0, 40); bool wrote = false, asked = false;
    for (size_t s = 0; s < steps; s++) { size_t i = c.below(n), b = c.range(0, n), e = c.range(b, n); int op = (int)c.weighted({ 6, 8, 3, 2, 2, 2 }); c.show("op", op);
        switch (op) { case 0: { T x = O::gen(c); t.set(i, x); m[i] = x; wrote = true; break; }
        case 1: { SHOW(b); SHOW(e); T r = O::id(); for (size_t j = b; j < e; j++) r = O::f(r, m[j]); T g = k.get(b, e); CHECK_MSG(g == r, "range [" << b << "," << e << ") gives " << O::s(g) << ", expected " << O::s(r)); asked |= e > b + 1; break; }
        case 2: CHECK(k[i] == m[i]); CHECK(k.get(i) == m[i]); CHECK(t[i] == m[i]); break;
        case 3: { for (size_t j = b; j < e; j++) if (c.coin()) t[j] = m[j] = O::gen(c); t.rebuild(b, e); wrote |= e > b; break; }
        case 4: { T x = O::gen(c); t[i] = m[i] = x; t.rebuild(i); wrote = true; break; }
        case 5: { for (size_t j = 0; j < n; j++) if (c.chance(1, 4)) t[j] = m[j] = O::gen(c); t.rebuild(); wrote = true; break; } } }
    T r = O::id(); for (size_t j = 0; j < n; j++) r = O::f(r, m[j]); CHECK(k.get(0, n) == r); for (size_t b = 0; b <= n && n <= 40; b++) { T r = O::id(); for (size_t e = b; e <= n; e++) { CHECK_MSG(k.get(b, e) == r, "range [" << b << "," << e << ")"); if (e < n) r = O::f(r, m[e]); } } c.nontrivial(wrote && asked);
}
PROP(segment_tree_affine, 690000, 17250000) { seg<OAf, Af>(c); }
PROP(segment_tree_values, 240000, 6000000) { if (c.coin()) seg<OMin, int64_t>(c); else if (c.coin()) seg<OSum, uint64_t>(c); else seg<OStr, std::string>(c); }
// a node: polynomial hash of the elements (order sensitive), their maximum, and a pending affine update
static const int P = 251, B = 7;
struct Nd { int h, pw, g, len, mx; int a, b; }; // hash, B^len, sum of B^i, length, maximum; pending x -> a x + b (a is 0 or 1, so that the maximum can follow)
static Nd leaf(int x) { return Nd{ x % P, B, 1, 1, x, 1, 0 }; }
static Nd ident() { return Nd{ 0, 1, 0, 0, -1, 1, 0 }; }
static void apply(Nd& n, int a, int b) { if (!n.len) return; n.h = (a * n.h + b * n.g) % P; n.mx = a * n.mx + b; n.b = a * n.b + b; n.a *= a; }
static void up(Nd& p, const Nd& l, const Nd& r) { int h = (l.h + l.pw * r.h) % P, pw = l.pw * r.pw % P, g = (l.g + l.pw * r.g) % P, len = l.len + r.len, mx = std::max(l.mx, r.mx); p.h = h; p.pw = pw; p.g = g; p.len = len; p.mx = mx; }
static void down(Nd& p, Nd& l, Nd& r) { if (p.a == 1 && p.b == 0) return; apply(l, p.a, p.b); apply(r, p.a, p.b); p.a = 1; p.b = 0; }
PROP(lazy_history, 330000, 8250000) {
    size_t n = c.chance(1, 20) ? c.range(60, 300) : c.range(1, 33); std::vector<int> m(n); for (auto& x : m) x = (int)c.range(0, 100); SHOW(n); bool fromv = c.coin(); std::vector<Nd> v; for (int x : m) v.push_back(leaf(x)); typedef lazy_segment_tree<Nd> T; T t = fromv ? T(v.begin(), v.end(), up, down, ident()) : T(n, up, down, ident()); if (!fromv) { for (size_t i = 0; i < n; i++) t[i] = v[i]; t.rebuild(); } CHECK(t.size() >= n);
    size_t steps = c.range(0, 40); bool upd = false, asked = false, deep = false; auto ask = [&](size_t b, size_t e) { Nd g = t.get(b, e); int h = 0, pw = 1, mx = -1; for (size_t j = b; j < e; j++) h = (h + pw * m[j]) % P, pw = pw * B % P, mx = std::max(mx, m[j]); CHECK_MSG(g.len == (int)(e - b) && g.h == h && g.mx == mx, "range [" << b << "," << e << "): length " << g.len << " hash " << g.h << " maximum " << g.mx << ", expected " << e - b << " " << h << " " << mx); };
    for (size_t s = 0; s < steps; s++) { size_t b = c.range(0, n), e = c.range(b, n); int op = (int)c.weighted({ 6, 8, 3, 3, 2 }); c.show("op", op); SHOW(b); SHOW(e); int x = (int)c.range(0, 100); SHOW(x);
        switch (op) { case 0: { int a = (int)c.below(2); t.update(b, e, [&](Nd& n) { apply(n, a, x); return true; }); for (size_t j = b; j < e; j++) m[j] = a * m[j] + x; upd |= e > b + 1; break; }
        case 1: ask(b, e); asked |= e > b + 1; break;
        case 2: { /* x -> min(x, value): recurses until the segment is settled */ t.update(b, e, [&](Nd& n) { if (n.mx <= x) return true; if (n.len > 1) { deep = true; return false; } n.mx = x; n.h = x % P; return true; }); for (size_t j = b; j < e; j++) m[j] = std::min(m[j], x); break; }
        case 3: { t.restore(b, e); for (size_t j = b; j < e; j++) CHECK_MSG(t[j].mx == m[j], "element " << j << " is restored as " << t[j].mx << ", expected " << m[j]); if (c.coin()) { for (size_t j = b; j < e; j++) if (c.coin()) t[j] = leaf(m[j] = (int)c.range(0, 100)); t.rebuild(b, e); } break; }
        case 4: { t.restore(0, n); for (size_t j = 0; j < n; j++) { CHECK_EQ(t[j].mx, m[j]); if (c.chance(1, 3)) t[j] = leaf(m[j] = (int)c.range(0, 100)); } t.rebuild(); break; } } }
    ask(0, n); for (size_t b = 0; b <= n && n <= 24; b++) for (size_t e = b; e <= n; e++) ask(b, e); c.nontrivial(upd && asked); c.label("recursive update", deep);
}
PROP(fenwick, 2000000, 50000000) {
    using altruct::math::fenwick_tree; size_t n = c.chance(1, 20) ? c.range(60, 300) : c.range(0, 33); SHOW(n); int kind = (int)c.below(2); size_t steps = c.range(0, 60); bool two = false;
    if (kind == 0) { fenwick_tree<int64_t> t(n, [](int64_t a, int64_t b) { return (int64_t)((uint64_t)a + b); }); std::vector<uint64_t> m(n); for (size_t s = 0; s < steps && n; s++) { size_t i = c.below(n); SHOW(i); if (c.coin()) { int64_t x = c.any<int64_t>(); SHOW(x); t.add(i, x); m[i] += x; two = true; } else if (c.chance(1, 30)) { t.reset(); m.assign(n, 0); } else { uint64_t r = 0; for (size_t j = 0; j <= i; j++) r += m[j]; CHECK_EQ(t.get_sum(i), (int64_t)r); } } uint64_t r = 0; for (size_t i = 0; i < n; i++) CHECK_EQ(t.get_sum(i), (int64_t)(r += m[i])); CHECK_EQ(t.get_sum((size_t)-1), (int64_t)0); }
    else { const int I = INT_MIN; fenwick_tree<int> t(n, [](int a, int b) { return std::max(a, b); }, I); std::vector<int> m(n, I); for (size_t s = 0; s < steps && n; s++) { size_t i = c.below(n); SHOW(i); if (c.coin()) { int x = c.any<int>(); SHOW(x); t.add(i, x); m[i] = std::max(m[i], x); two = true; } else if (c.chance(1, 30)) { t.reset(I); m.assign(n, I); } else { int r = I; for (size_t j = 0; j <= i; j++) r = std::max(r, m[j]); CHECK_EQ(t.get_sum(i, I), r); } } }
    c.nontrivial(two && n > 2);
}

// C23: binary searches and KMP.
#include "pbt.h"
#include <deque>
#include <limits>
#include <cmath>
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/search/kmp_search.h"
using namespace altruct::search;
template<typename T> static void predOne(pbt::Ctx& c) {
    typedef std::numeric_limits<T> L; T a = c.any<T>(), b = c.any<T>(); if (c.coin()) { T w = (T)c.range(0, 30); b = a > L::max() - w ? L::max() : (T)(a + w); if (c.coin()) b = L::max(), a = (T)(b - w); } if (a > b) std::swap(a, b); // hi - lo must be representable in the promoted type
    if (L::is_signed && a < 0 && b > L::max() + a) { if (c.coin()) a = 0; else b = (T)(L::max() + a); if (sizeof(T) >= 4 && b < a) b = a; } uint64_t span = (uint64_t)b - (uint64_t)a; T t = a == b || c.chance(1, 5) ? (c.coin() ? a : b) : (T)((uint64_t)a + c.any<uint64_t>() % span); if (t < a || t > b) t = b; SHOW(a); SHOW(b); SHOW(t); int calls = 0; T r = binary_search_pred(a, b, [&](T x) { calls++; CHECK_MSG(a <= x && x < b, "predicate called with " << (int64_t)x << " outside the range"); return x >= t; }); CHECK_EQ(r, t); CHECK_MSG(calls <= 64, calls << " calls"); c.nontrivial(t > a && t < b); c.label("whole range false", t == b);
    // an empty or reversed range returns its lower bound
    T e = binary_search_pred(b, a, [&](T) { CHECK_MSG(a < b ? false : false, "predicate called on an empty range"); return true; }); CHECK_EQ(e, b);
}
PROP(pred_integers, 4000000, 100000000) { switch (c.below(6)) { case 0: predOne<int>(c); break; case 1: predOne<int64_t>(c); break; case 2: predOne<uint32_t>(c); break; case 3: predOne<uint64_t>(c); break; case 4: predOne<int16_t>(c); break; default: predOne<uint8_t>(c); } }
PROP(pred_iterators, 950000, 23750000) { std::deque<int> v(c.range(0, 40)); for (auto& x : v) x = (int)c.range(-9, 9); std::sort(v.begin(), v.end()); int key = (int)c.range(-10, 10); SHOW(key); size_t f = c.range(0, v.size()), l = c.range(f, v.size()); c.show("v", std::vector<int>(v.begin(), v.end())); auto it = binary_search_pred(v.begin() + f, v.begin() + l, [&](std::deque<int>::iterator i) { return *i >= key; }); CHECK_EQ(it - v.begin(), std::lower_bound(v.begin() + f, v.begin() + l, key) - v.begin()); std::vector<int> w(v.begin(), v.end()); const int* p = w.data(); CHECK_EQ(binary_search_pred(p + f, p + l, [&](const int* i) { return *i > key; }) - p, std::upper_bound(p + f, p + l, key) - p); c.nontrivial(l > f + 2); }
PROP(num_integers, 2300000, 57500000) {
    int64_t lo = c.range(-1000, 1000), hi = lo + c.range(0, c.coin() ? 20 : 100000), eps = 1; int64_t k = c.range(1, 4), off = c.range(-500, 500); bool dec = c.coin(); auto f = [&](int64_t x) { CHECK_MSG(lo <= x && x < hi, "called with " << x << " outside the range"); int64_t y = (x >= 0 ? x / k : -((-x + k - 1) / k)) + off; return dec ? -y : y; }; auto g = [&](int64_t x) { int64_t y = (x >= 0 ? x / k : -((-x + k - 1) / k)) + off; return dec ? -y : y; };
    int64_t val = c.coin() ? g(lo + c.range(0, hi - lo)) + c.range(-1, 1) : c.range(-2000, 2000); SHOW(lo); SHOW(hi); SHOW(k); SHOW(val); SHOW(dec); auto find = [&](bool strict) { int64_t a = lo, b = hi; while (a < b) { int64_t m = a + (b - a) / 2; int64_t y = g(m); bool ok = dec ? (strict ? y < val : y <= val) : (strict ? y > val : y >= val); if (ok) b = m; else a = m + 1; } return a; };
    int64_t r1 = lower_bound_num<int64_t>(lo, hi, eps, val, f, dec), r2 = upper_bound_num<int64_t>(lo, hi, eps, val, f, dec); CHECK_EQ(r1, find(false)); CHECK_EQ(r2, find(true)); if (!dec) { CHECK_EQ((lower_bound_num<int64_t, int64_t>(lo, hi, eps, val, f)), r1); CHECK_EQ((upper_bound_num<int64_t, int64_t>(lo, hi, eps, val, f)), r2); CHECK_EQ(binary_search_num<int64_t>(lo, hi, 1, [&](int64_t x) { return f(x) >= val; }), r1); } c.nontrivial(r1 > lo && r2 < hi); c.label("plateau", r2 > r1 + 1);
}
PROP(num_reals, 4000000, 100000000) {
    double s = c.pick<double>({ 1e-6, 1, 1e6 }); double lo = s * (double)c.range(-1000, 1000) / 7, hi = lo + s * (double)c.range(0, 1000) / 11, eps = c.chance(1, 6) ? 0 : (hi - lo) * c.pick<double>({ 1e-12, 1e-6, 1e-3, 0.1, 0.6, 2 }); double t = c.chance(1, 6) ? (c.coin() ? lo : hi) : lo + (hi - lo) * (double)c.range(0, 1000000) / 1000000; SHOW(lo); SHOW(hi); SHOW(eps); SHOW(t); int calls = 0; double r = binary_search_num<double>(lo, hi, eps, [&](double x) { calls++; CHECK_MSG(lo <= x && x <= hi + eps, "called with " << x); return x >= t; }); double tol = eps + 8 * std::numeric_limits<double>::epsilon() * (std::fabs(lo) + std::fabs(hi)); CHECK_MSG(std::fabs(r - t) <= tol, "result " << r << " is further than eps from " << t); CHECK_MSG(calls < 2200, calls << " calls"); c.nontrivial(t > lo && t < hi);
    if (c.coin()) { bool dec = c.coin(); auto f = [&](double x) { return dec ? -x * x * x : x * x * x; }; double v = f(t); double q = c.coin() ? lower_bound_num<double>(lo, hi, eps, v, f, dec) : upper_bound_num<double>(lo, hi, eps, v, f, dec); if (std::fabs(t) > 0.1 * (std::fabs(lo) + std::fabs(hi))) CHECK_MSG(std::fabs(q - t) <= tol * 40 + std::fabs(t) * 1e-12, "result " << q << " for " << t); }
}
PROP(kmp_integers, 590000, 14750000) {
    int al = (int)c.range(1, 3); std::vector<int> t, p; bool per = c.coin(); size_t n = c.range(0, c.chance(1, 5) ? 80 : 20), m = c.range(1, 8); std::vector<int> unit(c.range(1, 4)); for (auto& x : unit) x = (int)c.below(al); for (size_t i = 0; i < n; i++) t.push_back(per && !c.chance(1, 12) ? unit[i % unit.size()] : (int)c.below(al)); if (n && c.chance(2, 3)) { size_t s = c.below(n); for (size_t i = s; i < n && i < s + m; i++) p.push_back(t[i]); if (c.chance(1, 4)) p.back() = (int)c.below(al); } else for (size_t i = 0; i < m; i++) p.push_back((int)c.below(al)); m = p.size(); SHOW(t); SHOW(p); std::vector<size_t> exp, got; for (size_t i = 0; i + m <= n; i++) if (std::equal(p.begin(), p.end(), t.begin() + i)) exp.push_back(i);
    size_t r = kmp_search(t.begin(), n, p.begin(), m, [&](size_t x) { got.push_back(x); return true; }); CHECK_EQ(got, exp); CHECK_EQ(r, exp.empty() ? n : exp.back()); if (exp.size()) { size_t stop = c.below(exp.size()); got.clear(); r = kmp_search(t.begin(), n, p.begin(), m, [&](size_t x) { got.push_back(x); return got.size() <= stop; }); CHECK_EQ(r, exp[stop]); CHECK_EQ(got.size(), stop + 1); } c.nontrivial(exp.size() > 1); c.label("overlapping", exp.size() > 1 && exp[1] < exp[0] + m);
}
PROP(kmp_strings, 1500000, 37500000) { std::string t = c.str(0, 60, "ab"), p = c.str(1, 6, "ab"); if (p.empty()) p = "a"; SHOW(t); SHOW(p); std::vector<size_t> exp, got; for (size_t i = t.find(p); i != std::string::npos; i = t.find(p, i + 1)) exp.push_back(i); kmp_search(t.c_str(), t.size(), p.c_str(), p.size(), [&](size_t x) { got.push_back(x); return true; }); CHECK_EQ(got, exp); c.nontrivial(exp.size() > 1); }
static long kmp_cmp; struct Kc { int x; bool operator==(const Kc& o) const { kmp_cmp++; return x == o.x; } bool operator!=(const Kc& o) const { kmp_cmp++; return x != o.x; } };
PROP(kmp_long_patterns, 340000, 8500000) { // patterns with many nested borders, texts made of their pieces; also the promised O(n + m) comparisons
    int al = (int)c.pick<int>({ 1, 2, 2, 3 }); size_t pm = c.weighted({ 20, 4, 1 }) == 0 ? 16 : 60; if (c.chance(1, 2000)) pm = 3000; std::vector<Kc> p, t; int kind = (int)c.below(5); size_t m = c.range(1, pm);
    auto app = [](std::vector<Kc>& v, const std::vector<Kc>& w, size_t b, size_t e) { for (size_t i = b; i < e; i++) v.push_back(w[i]); };
    if (kind == 0) for (size_t i = 0; i < m; i++) p.push_back({ (int)c.below(al) }); else if (kind == 1) { std::vector<Kc> b; for (size_t k = c.range(1, 5); k--;) b.push_back({ (int)c.below(al) }); while (p.size() < m) app(p, b, 0, c.chance(1, 6) ? c.range(1, b.size()) : b.size()); } else if (kind == 2) { std::vector<Kc> a{ { 0 } }, b{ { 0 }, { 1 } }; while (b.size() < m) { auto n = b; app(n, a, 0, a.size()); a = b; b = n; } p = b; p.resize(m, Kc{ 0 }); } else if (kind == 3) { p.push_back({ 0 }); int l = 1; while (p.size() < m) { auto q = p; p.push_back({ l++ % (al + 1) }); app(p, q, 0, q.size()); } p.resize(m, Kc{ 0 }); } else { while (p.size() < m) { p.push_back({ (int)c.below(al + 1) }); app(p, std::vector<Kc>(p), 0, std::min<size_t>(c.range(0, p.size()), m)); } p.resize(m, Kc{ 0 }); }
    m = p.size(); size_t n = c.range(0, 3 * m + 40); while (t.size() < n) { int k = (int)c.below(4); if (k == 0) t.push_back({ (int)c.below(al + 1) }); else if (k == 1) app(t, p, 0, c.range(0, m)); else if (k == 2) app(t, p, c.below(m), m); else app(t, p, 0, m); } n = t.size(); if (m <= 60) { std::string ps, ts; for (auto& x : p) ps += char('a' + x.x); for (auto& x : t) ts += char('a' + x.x); c.show("pattern", ps); c.show("text", ts); }
    std::vector<size_t> e, g; for (size_t i = 0; i + m <= n; i++) { size_t k = 0; while (k < m && t[i + k].x == p[k].x) k++; if (k == m) e.push_back(i); } kmp_cmp = 0; size_t r = kmp_search(t.begin(), n, p.begin(), m, [&](size_t x) { g.push_back(x); return true; }); CHECK_EQ(g, e); CHECK_EQ(r, e.empty() ? n : e.back()); CHECK_MSG(kmp_cmp <= 4 * (long)(n + m) + 10, kmp_cmp << " comparisons for " << n << " + " << m << " elements"); c.nontrivial(e.size() > 1 && m > 3); c.label("pattern of more than 16", m > 16); }

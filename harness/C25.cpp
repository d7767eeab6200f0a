// C25: collections helpers.
#include "pbt.h"
#include <deque>
#include <list>
#include <set>
#include "altruct/algorithm/collections/collections.h"
namespace col = altruct::collections;
struct Ps { int k, id; bool operator<(const Ps& o) const { return k < o.k; } bool operator==(const Ps& o) const { return k == o.k; } };
static std::vector<int> gen(pbt::Ctx& c) { std::vector<int> v(c.size_mostly(0, 20, 500, 200)); int r = c.pick<int>({ 1, 3, 1000000000 }); for (auto& x : v) x = (int)c.range(-r, r); return v; }
PROP(copies, 170000, 4250000) {
    auto v = gen(c); SHOW(v); std::list<int> l(v.begin(), v.end()); std::deque<int> d(v.begin(), v.end()); size_t n = c.chance(1, 4) ? c.any<size_t>() : c.range(0, 25); SHOW(n); auto s = v; std::stable_sort(s.begin(), s.end()); auto r = std::vector<int>(v.rbegin(), v.rend()); std::vector<int> t(v.begin(), v.begin() + std::min(n, v.size()));
    CHECK_EQ(col::sorted(v), s); CHECK_EQ(col::sorted(l.begin(), l.end()), s); CHECK_EQ(col::sorted(std::multiset<int>(v.begin(), v.end())), s); CHECK_EQ(col::reversed(v), r); CHECK_EQ(col::reversed(d), r); CHECK_EQ(col::reversed(l.begin(), l.end()), r); CHECK_EQ(col::take(v, n), t); CHECK_EQ(col::take(l, n), t); CHECK_EQ(col::take(v.begin(), v.end(), n), t); CHECK_EQ(std::vector<int>(l.begin(), l.end()), v);
    int m = (int)c.range(1, 3), calls = 0; std::vector<int> f, g; for (int x : v) if (x % m == 0) f.push_back(x); CHECK_EQ(col::filter(v, [&](int x) { calls++; return x % m == 0; }), f); CHECK_EQ(calls, (int)v.size()); CHECK_EQ(col::filter(l.begin(), l.end(), [&](int x) { return x % m == 0; }), f); std::vector<std::string> q; for (int x : v) q.push_back(std::to_string(x)); CHECK_EQ(col::transform(v, [](int x) { return std::to_string(x); }), q); CHECK_EQ(col::transform(l.begin(), l.end(), [](int x) { return std::to_string(x); }), q);
    int k = v.size() && c.coin() ? v[c.below(v.size())] : (int)c.range(-3, 3); bool in = std::count(v.begin(), v.end(), k) > 0; CHECK_EQ(col::contains(v, k), in); CHECK_EQ(col::contains(l.begin(), l.end(), k), in); c.nontrivial(v.size() > 2 && n > 0 && n < v.size());
    // order of equal elements does not have to be kept, but all of them must be there
    std::vector<Ps> p; for (size_t i = 0; i < v.size(); i++) p.push_back({ v[i], (int)i }); auto ps = col::sorted(p); std::set<int> ids; for (size_t i = 0; i < ps.size(); i++) { ids.insert(ps[i].id); CHECK_EQ(ps[i].k, s[i]); CHECK_EQ(v[ps[i].id], ps[i].k); } CHECK_EQ(ids.size(), v.size());
}
PROP(run_lengths, 790000, 19750000) {
    std::vector<int> v; int r = c.pick<int>({ 0, 1, 3 }); size_t n = c.range(0, 12); for (size_t i = 0; i < n; i++) { int x = (int)c.range(-r, r); for (size_t k = c.coin() ? 1 : c.size_mostly(1, 5, 1000, 400); k > 0; k--) v.push_back(x); } SHOW(v); auto e = col::run_length(v); std::vector<int> back; for (size_t i = 0; i < e.size(); i++) { CHECK(e[i].second > 0); if (i) CHECK_MSG(e[i].first != e[i - 1].first, "neighbouring runs of the same element"); back.insert(back.end(), e[i].second, e[i].first); } CHECK_EQ(back, v); std::list<int> l(v.begin(), v.end()); CHECK_EQ(col::run_length(l.begin(), l.end()), e); c.nontrivial(e.size() > 1 && v.size() > e.size());
}
PROP(comparisons, 1200000, 30000000) {
    auto a = gen(c), b = a; if (c.chance(2, 3)) { if (c.coin() && b.size()) b[c.below(b.size())] += (int)c.range(-1, 1); if (c.coin()) b.resize(c.range(0, b.size())); else if (c.coin()) b.push_back((int)c.range(-2, 2)); } if (c.coin()) std::swap(a, b); SHOW(a); SHOW(b); auto sgn = [](const std::vector<int>& x, const std::vector<int>& y) { return x < y ? -1 : x == y ? 0 : 1; }; CHECK_EQ(col::compare(a.begin(), a.end(), b.begin(), b.end()), sgn(a, b)); std::list<int> l(b.begin(), b.end()); CHECK_EQ(col::compare(a.begin(), a.end(), l.begin(), l.end()), sgn(a, b)); size_t m = c.chance(1, 8) ? c.any<size_t>() : c.range(0, 22); SHOW(m); auto A = a, B = b; A.resize(std::min(A.size(), m)); B.resize(std::min(B.size(), m)); CHECK_EQ(col::compare(a.begin(), a.end(), b.begin(), b.end(), m), sgn(A, B)); c.nontrivial(a.size() > 2 && a != b && sgn(a, b) != sgn(A, B)); c.label("one is a prefix", a.size() != b.size() && std::equal(a.begin(), a.begin() + std::min(a.size(), b.size()), b.begin()));
}
PROP(reserve, 190000, 4750000) {
    std::vector<int> v; int grow = 0, calls = 0; size_t cap = 0; int k = (int)c.range(1, 40); SHOW(k); for (int i = 0; i < k; i++) { size_t sz = c.coin() ? c.range(0, 4) : c.range(0, 60); c.show("sz", sz); auto before = v; size_t c0 = v.capacity(); col::reserve_more(v, sz); calls++; CHECK_EQ(v, before); CHECK_MSG(v.capacity() >= v.size() + sz, "capacity " << v.capacity() << " for " << v.size() << " + " << sz); CHECK(v.capacity() >= c0); if (v.capacity() != c0) { grow++; CHECK_MSG(c0 + sz < 4 || v.capacity() >= c0 + c0 / 2, "capacity grew only from " << c0 << " to " << v.capacity()); } for (size_t j = 0; j < sz; j++) v.push_back((int)j); } (void)cap; c.nontrivial(grow > 1 && calls > grow);
}

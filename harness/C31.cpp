// C31: treap with every duplicate mode, as set and as map, against a sorted vector.
#include <random>
#include <numeric>
#include <cmath>
#include "bst_model.h"
#include "altruct/structure/container/lazy_treap.h"
using namespace bm;
template<class K, class T, int DUP> using TR = treap<K, T, DUP, Cmp<K>>;
typedef std::pair<const int, Payload> Pr;
template<int DUP> void set_history(pbt::Ctx& c) { History<TR<Elem, Elem, DUP>, Elem, Elem, DUP, true> h{ c }; h.run(); }
template<int DUP> void map_history(pbt::Ctx& c) { History<TR<int, Pr, DUP>, int, Pr, DUP, true> h{ c }; h.run(); }
PROP(unique_keys, 23000, 575000) { if (c.coin()) set_history<IGNORE>(c); else map_history<IGNORE>(c); }
PROP(counted_keys, 15000, 375000) { if (c.coin()) set_history<COUNT>(c); else map_history<COUNT>(c); }
PROP(stored_duplicates, 14000, 350000) { if (c.coin()) set_history<STORE>(c); else map_history<STORE>(c); }
PROP(range_constructors, 110000, 2750000) {
    std::vector<int> v(c.range(0, 40)); for (auto& x : v) x = (int)c.range(0, 30); SHOW(v); c.nontrivial(v.size() > 3); treap<int> a(v.begin(), v.end()); treap<int, int, STORE> b(v.begin(), v.end()); treap<int, int, COUNT> d(v.begin(), v.end()); std::vector<int> s = v; std::sort(s.begin(), s.end()); CHECK_EQ(std::vector<int>(b.begin(), b.end()), s); CHECK_EQ(d.size(), (int)s.size()); for (int x : s) CHECK_EQ(d.count(x), (int)std::count(s.begin(), s.end(), x)); s.erase(std::unique(s.begin(), s.end()), s.end()); CHECK_EQ(std::vector<int>(a.begin(), a.end()), s); CHECK_EQ(std::vector<int>(d.begin(), d.end()), s);
    int x = (int)c.range(0, 9), y = (int)c.range(0, 9), z = (int)c.range(0, 9); treap<int> e{ x, y, z }; std::vector<int> t{ x, y, z }; std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); CHECK_EQ(std::vector<int>(e.begin(), e.end()), t); binary_search_tree<int> f{ x, y, z }, g(v.begin(), v.end()); CHECK_EQ(std::vector<int>(f.begin(), f.end()), t); CHECK_EQ(std::vector<int>(g.begin(), g.end()), s); std::reverse(s.begin(), s.end()); treap<int, int, IGNORE, std::greater<int>> r(v.begin(), v.end()); CHECK_EQ(std::vector<int>(r.begin(), r.end()), s);
}
template<int DUP> static void large_treap(pbt::Ctx& c) { // thousands of keys in an unlucky order, keys inserted again and counted keys partially erased: the contents and the O(log n) height
    int n = (int)c.range(300, 5000), rep = (int)c.range(1, DUP == STORE ? 3 : 20), order = (int)c.below(4); uint64_t sd = c.any<uint64_t>(); std::mt19937 g((uint32_t)sd); std::function<int()> rnd = [g]() mutable -> int { return (int)(g() >> 1); }; SHOW(DUP); SHOW(n); SHOW(rep); SHOW(order); treap<int, int, DUP> t(std::less<int>(), rnd);
    auto key = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (int)((uint64_t)i * 7919 % n); }; if (order == 3 && n % 7919 == 0) order = 0; bool blocks = c.coin(); std::vector<int> w(n, 0); 
    auto height = [&] { int best = 0, size = 0; std::vector<std::pair<typename treap<int, int, DUP>::iterator, int>> st; if (!t.empty()) st.emplace_back(t.root(), 1); while (!st.empty()) { auto e = st.back(); st.pop_back(); size++; best = std::max(best, e.second); auto l = e.first.left(), r = e.first.right(); if (l != t.end()) st.emplace_back(l, e.second + 1); if (r != t.end()) st.emplace_back(r, e.second + 1); } CHECK_MSG(best <= 6 * std::log2(size + 2) + 20, "height " << best << " of a treap with " << size << " nodes"); };
    auto verify = [&] { int tot = 0; auto it = t.begin(); for (int k = 0; k < n; k++) { if (DUP == STORE) { for (int j = 0; j < w[k]; j++, ++it) { CHECK(it != t.end()); CHECK_EQ(*it, k); } tot += w[k]; } else if (w[k]) { CHECK(it != t.end()); CHECK_EQ(*it, k); CHECK_EQ(it.count(), w[k]); ++it; tot += w[k]; } } CHECK(it == t.end()); CHECK_EQ(t.size(), tot); for (int q = 0; q < 3; q++) { int k = (int)c.below(n); CHECK_EQ(t.count(k), w[k]); int less = std::accumulate(w.begin(), w.begin() + k, 0); CHECK_EQ(t.count_less(k), less); auto f = t.find(k); CHECK_EQ(f == t.end(), w[k] == 0); if (w[k]) CHECK_EQ(*f, k); } height(); };
    for (int r = 0; r < (blocks ? 1 : rep); r++) for (int i = 0; i < n; i++) for (int q = 0; q < (blocks ? rep : 1); q++) { int k = key(i), ct = DUP == COUNT && i % 5 == 0 ? 3 : 1; auto it = t.insert(k, ct); CHECK_EQ(*it, k); w[k] = DUP == IGNORE ? 1 : w[k] + ct; } verify();
    if (DUP == COUNT) { for (int r = (int)c.below(rep + 1); r--;) for (int i = 0; i < n; i++) { int k = key(i); if (w[k]) { t.erase(k, 1); w[k]--; } } verify(); } 
    int lo = (int)c.below(n), hi = (int)c.range(lo, n - 1), step = (int)c.range(1, 3); for (int k = lo; k <= hi; k += step) { t.erase(k); w[k] = 0; } verify(); treap<int, int, DUP> u(t); t.clear(); CHECK(t.empty()); t.swap(u); verify();
    for (int i = 0; i < n; i += 2) { t.insert(key(i)); w[key(i)] = DUP == IGNORE ? 1 : w[key(i)] + 1; } verify(); c.nontrivial(n > 600); c.label(rep > 4 ? "keys inserted over and over" : "keys inserted once or a few times"); }
PROP(large_treaps, 510, 12750) { switch (c.below(3)) { case 0: large_treap<IGNORE>(c); break; case 1: large_treap<COUNT>(c); break; default: large_treap<STORE>(c); } }
struct LE { int k, tag; LE(int k = 0, int tag = 0) : k(k), tag(tag) {} };
struct LCmp { int mode; LCmp(int mode = 0) : mode(mode) {} bool operator()(const LE& a, const LE& b) const { return before(mode, a.k, b.k); } };
template<class I> static void lwalk(pbt::Ctx& c, I b, I e, const std::vector<LE>& m) { // forward and backward, by the prefix and the postfix operators; positions, subtree sizes and links
    I it = b, d; d = it; CHECK(d == it); int n = (int)m.size(), i = 0; for (; i < n; i++) { CHECK_EQ((*it).tag, m[i].tag); CHECK_EQ(it.operator->()->tag, m[i].tag); CHECK_EQ(it.pos(), i); CHECK_EQ(it.count(), 1); I l = it.left(), r = it.right(); CHECK_EQ(it.size(), 1 + (l == e ? 0 : l.size()) + (r == e ? 0 : r.size())); if (l != e) CHECK(l.parent() == it); if (r != e) CHECK(r.parent() == it); int j = (i * 7 + 3) % (n + 1); CHECK_EQ(it.add(j - i).pos(), j); I o = it++; CHECK_EQ((*o).tag, m[i].tag); CHECK(o != it); } CHECK(it == e);
    while (i-- > 0) { I o = it--; CHECK((i + 1 == n) == (o == e)); CHECK_EQ((*it).tag, m[i].tag); I p = it; ++p; CHECK(p == o); --p; CHECK(p == it); } CHECK(it == b); }
PROP(lazy_treap_order, 41000, 1025000) { // the ordered multiset operations of lazy_treap (its range aggregates are unfinished upstream)
    typedef lazy_treap<LE, LCmp> LT; auto up = [](LE&, const LE&, const LE&) {}; auto down = [](LE&, LE&, LE&) {}; int mode = (int)c.weighted({ 4, 1, 2 }), range = (int)c.pick<int>({ 5, 20, 200 }); LT t(up, down, LCmp(mode), Rand((int)c.below(4), c.any<uint64_t>())), u(up, down, LCmp(mode)); std::vector<LE> m, w; int tags = 0; bool erased = false; auto lt = [&](int a, int b) { return before(mode, a, b); }; size_t n = c.range(0, 60); SHOW(mode);
    auto same = [&](LT::iterator it, LT& t, const std::vector<LE>& m, size_t i, const char* what) { if (i >= m.size()) CHECK_MSG(it == t.end(), what << ": expected end"); else { CHECK_MSG(it != t.end(), what << ": end"); CHECK_MSG((*it).k == m[i].k && (*it).tag == m[i].tag, what << ": key " << (*it).k << " tag " << (*it).tag << " instead of " << m[i].k << " tag " << m[i].tag); } };
    auto verify = [&](LT& t, const std::vector<LE>& m) { CHECK_EQ(t.size(), (int)m.size()); CHECK_EQ(t.empty(), m.empty()); size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, i++) same(it, t, m, i, "forward"); CHECK_EQ(i, m.size()); if (c.chance(1, 5)) { const LT& k = t; lwalk<LT::iterator>(c, t.begin(), t.end(), m); lwalk<LT::const_iterator>(c, k.begin(), k.end(), m); lwalk<LT::const_iterator>(c, t.cbegin(), t.cend(), m); auto back = [&](auto b, auto e) { size_t i = m.size(); for (; b != e; ++b) { CHECK(i > 0); i--; CHECK_EQ((*b).tag, m[i].tag); } CHECK_EQ(i, (size_t)0); }; back(t.rbegin(), t.rend()); back(k.rbegin(), k.rend()); back(t.crbegin(), t.crend()); CHECK(k.root() == LT::const_iterator(t.root()) && t.croot() == k.root()); CHECK_EQ(m.empty(), t.root() == t.end()); if (!m.empty()) CHECK_EQ(k.root().size(), (int)m.size()); } };
    for (size_t s = 0; s < n; s++) { int k = (int)c.range(0, range); size_t a = 0, b = 0; for (auto& e : m) a += lt(e.k, k), b += !lt(k, e.k); int op = (int)c.weighted({ 8, 4, 2, 2, 1, 1, 4, 2 }); c.show("op", op); SHOW(k);
        switch (op) { case 0: { LE e(k, ++tags); same(t.insert(e), t, { e }, 0, "insert"); m.insert(m.begin() + b, e); break; }
        case 1: same(t.find(LE(k)), t, m, a < b ? a : m.size(), "find"); same(t.lower_bound(LE(k)), t, m, a, "lower_bound"); same(t.upper_bound(LE(k)), t, m, b, "upper_bound"); same(t.equal_range(LE(k)).first, t, m, a, "equal_range"); same(t.equal_range(LE(k)).second, t, m, b, "equal_range"); break;
        case 2: erased |= a < b; t.erase(LE(k)); m.erase(m.begin() + a, m.begin() + b); break;
        case 3: { if (m.empty()) break; size_t i = c.below(m.size()); auto it = t.begin(); for (size_t j = 0; j < i; j++) ++it; CHECK_EQ(it.pos(), (int)i); t.erase(it); m.erase(m.begin() + i); erased = true; break; }
        case 4: t.clear(); m.clear(); break;
        case 5: { int h = (int)c.below(3); if (h == 0) { if (c.coin()) { LT x(t); u = std::move(x); w = m; } else { LT x(std::move(t)); verify(x, m); t.swap(x); LT y(m.begin(), m.end(), up, down, LCmp(mode), Rand((int)c.below(4), c.any<uint64_t>())); verify(y, m); u = y; w = m; } } else if (h == 1) { u = t; w = m; } else { u.swap(t); std::swap(m, w); } break; }
        case 6: { LE e(k, ++tags); size_t i = c.range(a, b); auto it = t.begin(); for (size_t j = 0; j < i; j++) ++it; same(t.insert_before(it, e), t, { e }, 0, "insert_before"); m.insert(m.begin() + i, e); break; }
        default: { bool eq = m.size() == w.size(); int r = 0; for (size_t i = 0; !r && i < m.size() && i < w.size(); i++) r = lt(m[i].k, w[i].k) ? -1 : lt(w[i].k, m[i].k); if (!r && !eq) r = m.size() < w.size() ? -1 : 1; CHECK_EQ(t == u, r == 0); CHECK_EQ(t < u, r < 0); CHECK_EQ(t >= u, r >= 0); CHECK_EQ(t != u, r != 0); CHECK_EQ(t > u, r > 0); CHECK_EQ(t <= u, r <= 0); } } verify(t, m); verify(u, w); }
    c.nontrivial(erased && tags > 5);
}

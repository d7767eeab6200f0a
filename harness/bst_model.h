// Histories of operations on the ordered containers (binary_search_tree, treap), checked against a sorted vector.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <functional>
#include <limits>
#include <memory>
#include <vector>
#include "altruct/structure/container/treap.h"
namespace bm {
using namespace altruct::container;
enum { IGNORE = bst_duplicate_handling::IGNORE, COUNT = bst_duplicate_handling::COUNT, STORE = bst_duplicate_handling::STORE };
static int live = 0;
struct Live { Live() { live++; } Live(const Live&) { live++; } Live& operator=(const Live&) = default; ~Live() { live--; } };
struct Elem { int k, tag; Live l; Elem(int k, int tag = -1) : k(k), tag(tag) {} };
struct Payload { int tag; Live l; Payload(int tag) : tag(tag) {} };
inline int kof(int k) { return k; }
inline int kof(const Elem& e) { return e.k; }
inline int kof(const std::pair<const int, Payload>& p) { return p.first; }
inline int tagof(const Elem& e) { return e.tag; }
inline int tagof(const std::pair<const int, Payload>& p) { return p.second.tag; }
// 0: ascending, 1: descending, 2: coarse (keys fall into classes)
inline bool before(int mode, int a, int b) { return mode == 0 ? a < b : mode == 1 ? b < a : (a >> 2) < (b >> 2); }
template<class K> struct Cmp { int mode; Cmp(int mode = 0) : mode(mode) {} bool operator()(const K& a, const K& b) const { return before(mode, kof(a), kof(b)); } };
struct Rand { int mode; uint64_t s; Rand(int mode = 0, uint64_t s = 1) : mode(mode), s(s) {} int operator()() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return mode == 0 ? int(z & 0x7fffffff) : mode == 1 ? int(z % 4) : mode == 2 ? 5 : int((uint32_t)z); } };
struct E { int k, tag, cnt; const void* addr; };
template<class Tree, class K, class T, int DUP, bool TREAP> struct History {
    typedef typename Tree::iterator It; typedef typename Tree::const_iterator Cit;
    pbt::Ctx& c; int mode; bool balanced;
    struct Side { std::unique_ptr<Tree> t; std::vector<E> m; int mode; };
    Side S[2]; int tags = 0;
    template<bool B> typename std::enable_if<B, Tree*>::type mk(int mode) { int rm = (int)c.weighted({ 6, 2, 1, 3 }); if (rm == 1 || rm == 2) balanced = false; return new Tree(Cmp<K>(mode), Rand(rm, c.any<uint64_t>())); }
    template<bool B> typename std::enable_if<!B, Tree*>::type mk(int mode) { return new Tree(Cmp<K>(mode)); }
    template<class V> static const void* ad(const V& v) { return (const void*)&v; }
    bool lt(int a, int b) const { return before(mode, a, b); }
    size_t lb(const std::vector<E>& m, int k) const { size_t i = 0; while (i < m.size() && lt(m[i].k, k)) i++; return i; }
    size_t ub(const std::vector<E>& m, int k) const { size_t i = 0; while (i < m.size() && !lt(k, m[i].k)) i++; return i; }
    static int total(const std::vector<E>& m) { int s = 0; for (auto& e : m) s += e.cnt; return s; }
    template<class I> void same(I it, I end, const std::vector<E>& m, size_t i, const char* what) { if (i >= m.size()) CHECK_MSG(it == end, what << ": expected end"); else { CHECK_MSG(it != end, what << ": end instead of element " << i); CHECK_MSG(ad(*it) == m[i].addr && tagof(*it) == m[i].tag && kof(*it) == m[i].k, what << ": key " << kof(*it) << " tag " << tagof(*it) << " instead of key " << m[i].k << " tag " << m[i].tag); CHECK_MSG(it.count() == m[i].cnt, what << ": count " << it.count() << " expected " << m[i].cnt); } }
    template<class I> int shape(I it, I end, const std::vector<E>& m, size_t& pos, int depth, int& height) { if (it == end) return 0; CHECK(depth < 100000); height = std::max(height, depth + 1); I l = it.left(), r = it.right(); if (l != end) CHECK_MSG(l.parent() == it, "parent link"); if (r != end) CHECK_MSG(r.parent() == it, "parent link"); int s = shape(l, end, m, pos, depth + 1, height); CHECK(pos < m.size()); same(it, end, m, pos, "in-order"); s += m[pos].cnt; pos++; s += shape(r, end, m, pos, depth + 1, height); CHECK_MSG(it.size() == s, "subtree size " << it.size() << " expected " << s); return s; }
    void verify(Side& s) { const Tree& ct = *s.t; Tree& t = *s.t; auto& m = s.m; CHECK_EQ(t.size(), total(m)); CHECK_EQ(t.empty(), m.empty());
        size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, i++) { CHECK_MSG(i < m.size(), "more elements than expected"); same(it, t.end(), m, i, "forward"); } CHECK_EQ(i, m.size()); i = 0; for (auto it = ct.begin(); it != ct.end(); it++, i++) { CHECK(i < m.size()); same(it, ct.end(), m, i, "const forward"); } CHECK_EQ(i, m.size());
        for (auto it = t.rbegin(); it != t.rend(); ++it) { CHECK(i > 0); i--; CHECK(ad(*it) == m[i].addr); } CHECK_EQ(i, (size_t)0); i = m.size(); for (auto it = ct.crbegin(); it != ct.crend(); it++) { CHECK(i > 0); i--; CHECK(ad(*it) == m[i].addr); } CHECK_EQ(i, (size_t)0);
        i = m.size(); for (auto it = t.end(); i > 0;) { --it; i--; same(it, t.end(), m, i, "backward"); } 
        if (c.chance(1, 4)) facets(t, ct, m);
        size_t pos = 0; int h = 0; shape(t.root(), t.end(), m, pos, 0, h); CHECK_EQ(pos, m.size()); if (t.root() != t.end()) CHECK(t.root().parent() == t.end());
        if (TREAP && balanced) { double n = m.size() + 2; int lg = 0; while (n > 1) n /= 2, lg++; CHECK_MSG(h <= 12 * lg + 24, "height " << h << " with " << m.size() << " nodes"); } }
    template<class I> void walk(I b, I e, const std::vector<E>& m, const char* what) { // every way of moving an iterator
        size_t i = 0; I it = b; while (i < m.size()) { I o = it++; CHECK_MSG(ad(*o) == m[i].addr && kof(*o.operator->()) == m[i].k, what << ": it++ returns the old position"); CHECK_MSG(o != it && !(o == it), what << ": it++ moves"); i++; } CHECK_MSG(it == e && !(it != e), what << ": it++ ends at end"); while (i > 0) { I o = it--; i--; CHECK_MSG(i + 1 == m.size() ? o == e : ad(*o) == m[i + 1].addr, what << ": it-- returns the old position"); CHECK_MSG(ad(*it) == m[i].addr, what << ": it-- moves"); I p = it; I& q = ++p; CHECK(&q == &p && p == o); I& r = --p; CHECK(&r == &p && p == it); } CHECK(it == b); }
    template<class I> void walk_back(I b, I e, const std::vector<E>& m, const char* what) { size_t i = m.size(); for (I it = b; it != e; ++it) { CHECK_MSG(i > 0, what); i--; CHECK_MSG(ad(*it) == m[i].addr, what); } CHECK_MSG(i == 0, what); }
    void facets(Tree& t, const Tree& ct, const std::vector<E>& m) { walk<It>(t.begin(), t.end(), m, "iterator"); walk<Cit>(ct.begin(), ct.end(), m, "const iterator"); walk<Cit>(t.cbegin(), t.cend(), m, "cbegin"); walk_back(ct.rbegin(), ct.rend(), m, "const reverse"); walk_back(t.crbegin(), t.crend(), m, "crbegin"); size_t pos = 0; int h = 0; shape<Cit>(c.coin() ? ct.root() : t.croot(), ct.end(), m, pos, 0, h); CHECK_EQ(pos, m.size()); CHECK(ct.croot() == Cit(t.root()));
        if (!m.empty()) { size_t i = c.below(m.size()), j = c.range(0, m.size()); It it = t.begin(); for (size_t x = 0; x < i; x++) ++it; Cit ci = it; CHECK(ad(*ci) == m[i].addr && ci.count() == m[i].cnt && ci.size() == it.size()); if (DUP != COUNT) { CHECK_EQ(ci.pos(), (int)i); same(ci.add((int)j - (int)i), ct.end(), m, j, "const add"); } } }
    void verify_all() { int n = 0; for (auto& s : S) { mode = s.mode; verify(s); n += (int)s.m.size(); } mode = S[0].mode; CHECK_MSG(live == n, live << " live values for " << n << " elements"); }
    int key() { return (int)c.range(0, range_); } int range_ = 20;
    T val(int k, int tag) { return T(k, tag); }
    int cnt() { return c.coin() ? 1 : (int)c.range(1, 5); }
    void erase_model(std::vector<E>& m, size_t i, int n) { if (DUP == COUNT && n < m[i].cnt) m[i].cnt -= n; else m.erase(m.begin() + i); }
    It at(Side& s, size_t i) { It it = s.t->begin(); while (i--) ++it; return it; }
    void run() { live = 0; balanced = true; for (auto& s : S) { s.mode = (int)c.weighted({ 4, 1, 2 }); s.t.reset(mk<TREAP>(s.mode)); }
        range_ = (int)c.pick<int>({ 5, 20, 20, 100, 1000 }); size_t n = c.chance(1, 30) ? c.range(100, 500) : c.range(0, 60); bool erased = false, dup = false; int bulk = c.chance(1, 8); SHOW(range_); SHOW(n);
        if (c.chance(1, 100)) { /* long sorted runs: only the shape can stop degenerating */ mode = S[0].mode; int nn = (int)c.range(300, 1500); for (int i = 0; i < nn; i++) { int k = mode == 1 ? -i : i * (mode == 2 ? 4 : 1); int tg = ++tags; It it = S[0].t->insert(val(k, tg)); S[0].m.push_back({ k, tg, 1, ad(*it) }); } range_ = nn; n = c.range(0, 30); c.label("sorted run"); verify(S[0]); }
        for (size_t step = 0; step < n; step++) { Side& s = S[0]; mode = s.mode; auto& m = s.m; Tree& t = *s.t; const Tree& ct = t; int op = (int)c.weighted({ bulk ? 60 : 30, 12, 6, 3, 14, 6, 6, 1, 4, 3, 3, 6 });
            switch (op) {
            case 0: { int k = key(), n = cnt(), tg = ++tags; c.show("insert", k); size_t a = lb(m, k), b = ub(m, k); if (DUP != COUNT) { It it = n == 1 ? t.insert(val(k, tg)) : t.insert(val(k, tg), n); n = 1; if (DUP == IGNORE && a < b) { dup = true; same(it, t.end(), m, a, "insert existing"); } else { if (a < b) dup = true; CHECK(it != t.end()); CHECK_EQ(tagof(*it), tg); m.insert(m.begin() + b, E{ k, tg, 1, ad(*it) }); } } else { It it = t.insert(val(k, tg), n); if (a < b) { dup = true; m[a].cnt += n; same(it, t.end(), m, a, "insert existing"); } else { CHECK(it != t.end()); m.insert(m.begin() + b, E{ k, tg, n, ad(*it) }); same(it, t.end(), m, b, "insert"); } } break; }
            case 1: { int k = !m.empty() && c.chance(2, 3) ? m[c.below(m.size())].k : key(); size_t a = lb(m, k), b = ub(m, k); erased |= a < b; int n = cnt(); bool all = c.coin(); c.show("erase key", k); if (all || DUP == STORE) { t.erase(K(k)); m.erase(m.begin() + a, m.begin() + b); } else { t.erase(K(k), n); if (a < b) erase_model(m, a, n); } break; }
            case 2: { if (m.empty()) { if (c.coin()) t.erase(t.end()); break; } size_t i = c.below(m.size()); erased = true; c.show("erase at", i); if (c.coin()) { t.erase(at(s, i)); m.erase(m.begin() + i); } else { int n = cnt(); t.erase(Cit(at(s, i)), n); erase_model(m, i, n); } break; }
            case 3: { size_t i = c.range(0, m.size()), j = std::min<size_t>(m.size(), i + c.range(0, 6)); erased |= i < j; c.show("erase from", i); c.show("to", j); It b = at(s, i), e = at(s, j); if (DUP == COUNT && c.coin()) { int n = cnt(); t.erase(b, e, n); for (size_t x = j; x-- > i;) erase_model(m, x, n); } else { t.erase(b, e); m.erase(m.begin() + i, m.begin() + j); } break; }
            case 4: { int k = c.coin() ? key() : (int)c.range(-1, range_ + 1); K key(k); size_t a = lb(m, k), b = ub(m, k); size_t f = a < b ? a : m.size(); same(t.find(key), t.end(), m, f, "find"); same(ct.find(key), ct.end(), m, f, "find const"); same(t.lower_bound(key), t.end(), m, a, "lower_bound"); same(ct.lower_bound(key), ct.end(), m, a, "lower_bound const"); same(t.upper_bound(key), t.end(), m, b, "upper_bound"); same(ct.upper_bound(key), ct.end(), m, b, "upper_bound const"); auto r = t.equal_range(key); same(r.first, t.end(), m, a, "equal_range"); same(r.second, t.end(), m, b, "equal_range"); auto rc = ct.equal_range(key); same(rc.first, ct.end(), m, a, "equal_range const"); same(rc.second, ct.end(), m, b, "equal_range const"); int l = 0, le = 0; for (size_t i = 0; i < b; i++) { le += m[i].cnt; if (i < a) l += m[i].cnt; } CHECK_EQ(ct.count_less(key), l); CHECK_EQ(ct.count_less_or_equal(key), le); CHECK_EQ(ct.count(key), le - l); break; }
            case 5: { int tot = total(m); int k = (int)c.range(0, tot); size_t i = 0; for (int r = k; i < m.size() && r >= m[i].cnt; i++) r -= m[i].cnt; same(t.find_kth(k), t.end(), m, i, "find_kth"); same(ct.find_kth(k), ct.end(), m, i, "find_kth const"); break; }
            case 6: { if (DUP == COUNT) break; size_t i = c.range(0, m.size()), j = c.range(0, m.size()); It it = at(s, i); CHECK_EQ(it.pos(), (int)i); CHECK_EQ(Cit(it).pos(), (int)i); same(it.add((int)j - (int)i), t.end(), m, j, "add"); break; }
            case 7: { t.clear(); m.clear(); c.label("clear"); break; }
            case 8: { int how = (int)c.below(5); Side& o = S[1]; c.show("copy", how); c.label("copied", !m.empty()); auto readdr = [](Side& s) { size_t i = 0; for (auto it = s.t->begin(); it != s.t->end() && i < s.m.size(); ++it) s.m[i++].addr = ad(*it); }; if (how == 0) { o.t.reset(new Tree(t)); o.m = m; o.mode = s.mode; readdr(o); } else if (how == 1) { *o.t = ct; o.m = m; o.mode = s.mode; readdr(o); } else if (how == 2) { Tree x(std::move(t)); CHECK_EQ(x.size(), total(m)); { Tree y; t = std::move(y); } t = std::move(x); x.clear(); } else if (how == 3) { *o.t = std::move(t); o.t->swap(t); } else { t = *&t; readdr(s); } mode = s.mode; break; }
            case 9: { S[0].t->swap(*S[1].t); std::swap(S[0].m, S[1].m); std::swap(S[0].mode, S[1].mode); break; }
            case 10: { if (S[0].mode != S[1].mode) break; auto& o = S[1].m; const Tree& u = *S[1].t; int r = 0; for (size_t i = 0; !r && i < std::min(m.size(), o.size()); i++) r = lt(m[i].k, o[i].k) ? -1 : lt(o[i].k, m[i].k) ? 1 : 0; if (!r && m.size() != o.size()) r = m.size() < o.size() ? -1 : 1; CHECK_EQ(ct == u, r == 0); CHECK_EQ(ct != u, r != 0); CHECK_EQ(ct < u, r < 0); CHECK_EQ(ct > u, r > 0); CHECK_EQ(ct <= u, r <= 0); CHECK_EQ(ct >= u, r >= 0); CHECK(ct == ct && !(ct < ct)); c.label("compared", !m.empty() && !o.empty()); break; }
            case 11: { int k = key(); size_t a = lb(m, k), b = ub(m, k); if (DUP != STORE && a < b) break; size_t i = c.range(a, b); int n = DUP == COUNT ? cnt() : 1, tg = ++tags; c.show("insert before", i); It it = t.insert_before(at(s, i), val(k, tg), n); m.insert(m.begin() + i, E{ k, tg, n, ad(*it) }); same(it, t.end(), m, i, "insert_before"); break; }
            }
            if (m.size() <= 64 || c.chance(1, 20)) verify_all(); }
        verify_all(); c.nontrivial(erased && tags > 5); c.label("erased", erased); c.label("duplicates", dup); S[0].t.reset(); S[1].t.reset(); CHECK_MSG(live == 0, live << " values are never destroyed"); }
};
}

// C32: rope against std::vector, for histories of edits, copies and iterator arithmetic.
#include "pbt.h"
#include <limits>
#include <memory>
#include <algorithm>
#include "altruct/structure/container/rope.h"
using namespace altruct::container;
static int live = 0;
struct V { int x; V(int x = 0) : x(x) { live++; } V(const V& o) : x(o.x) { live++; } V& operator=(const V&) = default; ~V() { live--; } bool operator==(const V& o) const { return x == o.x; } bool operator<(const V& o) const { return x < o.x; } };
struct Rnd { int mode; uint64_t s; int operator()() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return mode == 0 ? int(z & 0x7fffffff) : mode == 1 ? int(z % 4) : int((uint32_t)z); } };
typedef rope<V> R; typedef std::vector<int> M;
static void verify(pbt::Ctx& c, R& r, const M& m) {
    const R& k = r; CHECK_EQ(r.size(), (int)m.size()); CHECK_EQ(r.empty(), m.empty()); size_t i = 0; for (auto it = r.begin(); it != r.end(); ++it) { CHECK(i < m.size()); CHECK_MSG((*it).x == m[i], "element " << i << " is " << (*it).x << ", expected " << m[i]); CHECK_EQ(it.pos(), (int)i); i++; } CHECK_EQ(i, m.size()); i = 0; for (auto it = k.cbegin(); it != k.cend(); it++) { CHECK(i < m.size()); CHECK_EQ(it->x, m[i]); i++; } CHECK_EQ(i, m.size());
    for (auto it = r.rbegin(); it != r.rend(); ++it) { CHECK(i > 0); i--; CHECK_EQ((*it).x, m[i]); } CHECK_EQ(i, (size_t)0); for (i = 0; i < m.size(); i++) { CHECK_EQ(k[(int)i].x, m[i]); CHECK_EQ(r.at((int)i).x, m[i]); }
}
template<class I> static void moves(pbt::Ctx& c, I b, I e, const M& a, int p) { // every way of stepping an iterator, from position p to both ends
    I it = b + p; I d; d = it; CHECK(d == it); int i = p; while (i < (int)a.size()) { CHECK_EQ(it.operator->()->x, a[i]); I o = c.coin() ? it++ : it; if (o == it) { ++it; } i++; CHECK_MSG(o.pos() == i - 1 && it.pos() == i, "it++ from " << i - 1 << " to " << it.pos()); } CHECK(it == e); while (i > 0) { I o = c.coin() ? it-- : it; if (o == it) { --it; } i--; CHECK_MSG(o.pos() == i + 1 && it.pos() == i && it->x == a[i], "it-- from " << i + 1 << " to " << it.pos()); CHECK_EQ(it.count(), 1); } CHECK(it == b); }
PROP(rope_history, 360000, 9000000) {
    live = 0; { int rm = (int)c.weighted({ 4, 1, 2 }); R A(Rnd{ rm, c.any<uint64_t>() }), B(Rnd{ 0, c.any<uint64_t>() }); M a, b; int tag = 0; size_t n = c.chance(1, 40) ? c.range(100, 400) : c.range(0, 50); SHOW(n); bool erased = false; bool distinct = c.coin();
    if (c.chance(1, 100)) { int len = (int)c.range(500, 2000); bool fr = c.coin(); for (int i = 0; i < len; i++) { if (fr) { A.insert(0, V(i)); a.insert(a.begin(), i); } else { A.push_back(V(i)); a.push_back(i); } } verify(c, A, a); n = std::min<size_t>(n, 10); c.label("long"); }
    for (size_t s = 0; s < n; s++) { int op = (int)c.weighted({ 6, 10, 5, 5, 4, 4, 5, 1, 3, 2, 3, 4 }); int v = distinct ? ++tag : (++tag, (int)c.range(0, 2)); int N = (int)a.size(), p = (int)c.range(0, N); c.show("op", op); c.show("pos", p);
        switch (op) {
        case 0: A.push_back(V(v)); a.push_back(v); break;
        case 1: A.insert(p, V(v)); a.insert(a.begin() + p, v); break;
        case 2: A.insert(A.begin() + p, V(v)); a.insert(a.begin() + p, v); break;
        case 3: if (p < N) { A.erase(p); a.erase(a.begin() + p); erased = true; } break;
        case 4: { int e = (int)c.range(p, std::min(N, p + 8)); c.show("to", e); A.erase(p, e); a.erase(a.begin() + p, a.begin() + e); erased |= e > p; break; }
        case 5: { int e = (int)c.range(p, std::min(N, p + 8)); c.show("to", e); A.erase(A.cbegin() + p, A.cbegin() + e); a.erase(a.begin() + p, a.begin() + e); erased |= e > p; break; }
        case 6: if (p < N) { int h = (int)c.below(4); if (h == 0) A[p] = V(v); else if (h == 1) A.at(p).x = v; else if (h == 2) *A.find_kth(p) = V(v); else A.begin()[p].x = v; a[p] = v; } break;
        case 7: A.clear(); a.clear(); break;
        case 8: { int h = (int)c.below(4); if (h == 0) { B = A; b = a; } else if (h == 1) { R x(A); B = std::move(x); b = a; } else if (h == 2) { R x(std::move(A)); CHECK_EQ(x.size(), N); A = R(); A.swap(x); } else { R x(a.begin(), a.end()); CHECK(x == A); } break; }
        case 9: A.swap(B); a.swap(b); break;
        case 10: { int r = a < b ? -1 : b < a; CHECK_EQ(A == B, r == 0); CHECK_EQ(A != B, r != 0); CHECK_EQ(A < B, r < 0); CHECK_EQ(A > B, r > 0); CHECK_EQ(A <= B, r <= 0); CHECK_EQ(A >= B, r >= 0); break; }
        case 11: { int q = (int)c.range(0, N); c.show("other", q); auto i = A.begin() + p, j = A.find_kth(q); const R& k = A; auto ci = k.begin() + p, cj = k.find_kth(q); CHECK_EQ((int)(j - i), q - p); CHECK_EQ((int)(cj - ci), q - p); CHECK(i + (q - p) == j); CHECK(j - (q - p) == i); CHECK_EQ(i < j, p < q); CHECK_EQ(i > j, p > q); CHECK_EQ(i <= j, p <= q); CHECK_EQ(i >= j, p >= q); CHECK_EQ(ci < cj, p < q); CHECK_EQ(ci >= cj, p >= q); CHECK_EQ(i == j, p == q); CHECK_EQ(ci > cj, p > q); CHECK_EQ(ci <= cj, p <= q); CHECK_EQ(ci == cj, p == q); CHECK_EQ(ci != cj, p != q); CHECK_EQ(i != j, p != q); CHECK(cj - (q - p) == ci && ci + (q - p) == cj); { R::const_iterator cu = ci; CHECK(&(cu += q - p) == &cu && cu == cj); CHECK(&(cu -= q - p) == &cu && cu == ci); } moves(c, A.begin(), A.end(), a, p); moves(c, k.begin(), k.end(), a, p); { size_t x = a.size(); for (auto t = k.rbegin(); t != k.rend(); ++t) CHECK_EQ((*t).x, a[--x]); CHECK(x == 0); x = a.size(); for (auto t = k.crbegin(); t != k.crend(); ++t) CHECK_EQ((*t).x, a[--x]); CHECK(x == 0); } if (q < N) { CHECK_EQ(i[q - p].x, a[q]); CHECK_EQ(ci[q - p].x, a[q]); auto t = i; t += q - p; CHECK_EQ(t->x, a[q]); t -= q - p; CHECK(t == i); }
            if (N) { auto it = std::lower_bound(A.begin(), A.end(), V(a[0])); (void)it; if (std::is_sorted(a.begin(), a.end())) CHECK_EQ((int)(it - A.begin()), (int)(std::lower_bound(a.begin(), a.end(), a[0]) - a.begin())); } break; }
        }
        if (a.size() < 80 || s + 1 == n) { verify(c, A, a); verify(c, B, b); CHECK_MSG(live == (int)(a.size() + b.size()), live << " live values for " << a.size() + b.size() << " elements"); } }
    c.nontrivial(erased && tag > 5); c.label("erased", erased); } CHECK_MSG(live == 0, live << " values are never destroyed");
}
PROP(rope_constructors, 1900000, 47500000) {
    std::vector<int> v(c.range(0, 30)); for (auto& x : v) x = (int)c.range(0, 20); SHOW(v); c.nontrivial(v.size() > 3); rope<int> r(v.begin(), v.end()); CHECK_EQ(std::vector<int>(r.begin(), r.end()), v); int a = (int)c.range(0, 9), b = (int)c.range(0, 9); rope<int> l{ a, b, a }; CHECK_EQ(std::vector<int>(l.begin(), l.end()), (std::vector<int>{ a, b, a })); CHECK_EQ(std::distance(l.begin(), l.end()), (ptrdiff_t)3); rope<int> q{ v.begin(), v.end(), Rnd{ 2, c.any<uint64_t>() } }; CHECK(q == r);
}

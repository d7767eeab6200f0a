// C37: binary_heap against a sorted multiset.
#include "pbt.h"
#include <algorithm>
#include "altruct/structure/container/binary_heap.h"
using namespace altruct::container;
struct Cm { int mode; bool operator()(const std::pair<int, int>& a, const std::pair<int, int>& b) const { return mode == 0 ? a.first < b.first : mode == 1 ? b.first < a.first : (a.first >> 2) < (b.first >> 2); } };
typedef std::pair<int, int> E;
PROP(heap_history, 1600000, 40000000) {
    typedef binary_heap<E, Cm> Hp; Cm cmp{ (int)c.below(3) }; SHOW(cmp.mode); int range = c.pick<int>({ 3, 30, 1000000000 }), tag = 0; auto gen = [&] { return E((int)c.range(-range, range), ++tag); }; std::vector<E> m(c.chance(1, 10) ? c.range(30, 300) : c.range(0, 20)); for (auto& e : m) e = gen(); int k = (int)c.below(3); std::vector<E> src = m; Hp h = k == 0 ? Hp(src, cmp) : k == 1 ? Hp(m.begin(), m.end(), cmp) : Hp(cmp); if (k == 2) for (auto& e : m) h.insert(e); SHOW(m);
    size_t steps = c.size_mostly(0, 60, 400, 60); bool popped = false, ins = false; int bias = (int)c.below(3);
    for (size_t s = 0; s <= steps; s++) { CHECK_EQ(h.size(), m.size()); if (!m.empty()) { E f = h.front(); CHECK_MSG(std::find(m.begin(), m.end(), f) != m.end(), "front is not one of the elements"); for (auto& e : m) CHECK_MSG(!cmp(e, f), "front " << f.first << " comes after " << e.first); }
        int op = (int)c.weighted({ bias == 1 ? 12 : 6, bias == 2 ? 12 : 6, 1 }); if (s == steps) break; c.show("op", op);
        if (op == 0) { E e = gen(); h.insert(e); m.push_back(e); ins = true; }
        else if (op == 1 && !m.empty()) { E f = h.front(); h.pop_front(); m.erase(std::find(m.begin(), m.end(), f)); popped = true; }
        else if (op == 2 && !m.empty()) { for (auto& e : h.v) if (c.coin()) { auto it = std::find(m.begin(), m.end(), e); e = gen(); *it = e; } h.rebuild(); } }
    if (c.coin()) { std::vector<E> out; while (h.size()) { out.push_back(h.front()); h.pop_front(); } CHECK_MSG(std::is_sorted(out.begin(), out.end(), cmp), "elements are not popped in order"); std::sort(out.begin(), out.end()); std::sort(m.begin(), m.end()); CHECK_EQ(out, m); } else { h.sort(); CHECK_MSG(std::is_sorted(h.v.begin(), h.v.end(), cmp), "sort() does not sort"); std::sort(h.v.begin(), h.v.end()); std::sort(m.begin(), m.end()); CHECK_EQ(h.v, m); }
    c.nontrivial(popped && ins && tag > 5);
}
PROP(heap_of_numbers, 1800000, 45000000) {
    std::vector<int64_t> v(c.range(0, 40)); for (auto& x : v) x = c.coin() ? c.range(-5, 5) : c.any<int64_t>(); SHOW(v); c.nontrivial(v.size() > 3); auto s = v; std::sort(s.begin(), s.end()); { binary_heap<int64_t> z(v.size()); CHECK_EQ(z.size(), v.size()); for (auto x : z.v) CHECK_EQ(x, (int64_t)0); if (z.size()) { CHECK_EQ(z.front(), (int64_t)0); } z.v = v; z.rebuild(); z.insert(0); auto w = s; w.push_back(0); std::sort(w.begin(), w.end()); std::vector<int64_t> o; while (z.size()) o.push_back(z.front()), z.pop_front(); CHECK_EQ(o, w); } binary_heap<int64_t> h(v.begin(), v.end()); std::vector<int64_t> out; binary_heap<int64_t> g = h; while (h.size()) out.push_back(h.front()), h.pop_front(); CHECK_EQ(out, s); g.sort(); CHECK_EQ(g.v, s); g.rebuild(); CHECK_EQ(g.size(), s.size()); if (s.size()) CHECK_EQ(g.front(), s[0]); binary_heap<int64_t, std::greater<int64_t>> d{ std::greater<int64_t>() }; for (auto x : v) d.insert(x); out.clear(); while (d.size()) out.push_back(d.front()), d.pop_front(); std::reverse(s.begin(), s.end()); CHECK_EQ(out, s);
}

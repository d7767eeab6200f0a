// C38: sqrt_map and lohi_map against std::map.
#include "pbt.h"
#include <map>
#include <stdexcept>
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/lohi_map.h"
using namespace altruct::container;
typedef int64_t i64;
struct V { int x; V(int x = 0) : x(x) {} bool operator==(const V& o) const { return x == o.x; } };
template<class I> static I isq(I n) { I r = 0; while ((r + 1) * (r + 1) <= n) r++; return r; }
template<class I> void sqrt_history(pbt::Ctx& c) {
    typedef sqrt_map<I, V> Mp; typedef std::map<I, V> R; auto pickmax = [&] { return (I)(c.coin() ? c.range(1, 50) : c.range(1, 5000)); }; I mx = pickmax(), lo = isq<I>(mx) + (c.coin() ? 0 : (I)c.range(0, 40)); SHOW(mx); SHOW(lo); Mp t = c.coin() ? Mp(lo, mx) : [&] { Mp t(lo); t.reset_max(mx); return t; }(); R m; I mx2 = (I)c.range(1, 300), lo2 = isq<I>(mx2) + (I)c.range(0, 3); Mp u(lo2, mx2); R w; bool erased = false, hi = false; int tag = 0;
    auto key = [&] { if (c.coin()) return (I)c.range(0, lo); I k = (I)c.range(1, std::max<I>(1, lo)); k = mx / k; return k; }; size_t steps = c.range(0, 60);
    for (size_t s = 0; s < steps; s++) { const Mp& ct = t; I k = key(); int op = (int)c.weighted({ 8, 6, 4, 4, 4, 3, 1, 2, 1 }); hi |= k > lo; c.show("op", op); SHOW(k);
        switch (op) { case 0: { V v(++tag); auto r = t.insert({ k, v }); CHECK_EQ(r.second, m.count(k) == 0); CHECK_EQ(r.first, k); m.insert({ k, v }); break; }
        case 1: erased |= m.count(k) > 0; CHECK_EQ(t.erase(k), (int)m.erase(k)); break;
        case 2: { if (c.coin()) { CHECK_MSG(t[k] == m[k], "map[" << (i64)k << "] is " << t[k].x << ", expected " << m[k].x); } else { V v(++tag); t[k] = v; m[k] = v; } break; }
        case 3: { bool thrown = false; V v; try { v = c.coin() ? ct.at(k) : t.at(k); } catch (std::out_of_range&) { thrown = true; } CHECK_EQ(thrown, m.count(k) == 0); if (!thrown) CHECK(v == m[k]); break; }
        case 4: CHECK_EQ(ct.count(k), (int)m.count(k)); break;
        case 5: if (m.count(k)) { CHECK(ct.el(k) == m[k]); CHECK(t.el(k) == m[k]); CHECK(ct(k) == m[k]); CHECK(ct[k] == m[k]); if (k <= lo) CHECK(ct.lo(k) == m[k]); else CHECK(ct.hi(mx / k) == m[k]); if (c.coin()) { V v(++tag); m[k] = v; int h = (int)c.below(3); if (h == 0) t.el(k) = v; else if (h == 1) t.at(k) = v; else if (k <= lo) t.lo(k) = v; else t.hi(mx / k) = v; } } break;
        case 6: { mx = (I)c.range(1, lo * lo + 2 * lo); t.reset_max(mx); m.erase(m.upper_bound(lo), m.end()); c.label("reset_max"); break; }
        case 7: { t.swap(u); std::swap(m, w); std::swap(mx, mx2); std::swap(lo, lo2); break; }
        case 8: { Mp x(t); CHECK_EQ(x.count(k), (int)m.count(k)); u = t; w = m; mx2 = mx; lo2 = lo; break; } } }
    for (I k = 0; k <= lo; k++) { CHECK_MSG(t.count(k) == (int)m.count(k), "count(" << (i64)k << ")"); if (m.count(k)) CHECK(t.at(k) == m[k]); if (k >= 1 && mx / k > lo) { I q = mx / k; CHECK_MSG(t.count(q) == (int)m.count(q), "count(" << (i64)q << ")"); if (m.count(q)) CHECK(t.at(q) == m[q]); } } c.nontrivial(erased && hi); c.label("high keys", hi);
}
PROP(sqrt_map_history, 640000, 16000000) { if (c.coin()) sqrt_history<int>(c); else sqrt_history<int64_t>(c); }
PROP(lohi_map_history, 890000, 22250000) {
    typedef lohi_map<i64, V> Mp; i64 lo = c.range(0, 20), lo2 = c.range(0, 20); SHOW(lo); Mp t(lo); std::map<i64, V> m; bool erased = false, hi = false; int tag = 0; size_t steps = c.range(0, 60); std::vector<i64> far; for (int i = 0; i < 4; i++) far.push_back(c.integer(lo + 1, INT64_MAX)); (void)lo2;
    for (size_t s = 0; s < steps; s++) { const Mp& ct = t; i64 k = c.coin() ? c.range(0, lo) : c.coin() ? c.range(lo, lo + 5) : far[c.below(4)]; int op = (int)c.weighted({ 6, 5, 5, 4, 4, 1 }); hi |= k > lo; c.show("op", op); SHOW(k);
        switch (op) { case 0: { V v(++tag); auto r = t.insert({ k, v }); CHECK_EQ(r.second, m.count(k) == 0); CHECK_EQ(r.first, k); m.insert({ k, v }); break; }
        case 1: erased |= m.count(k) > 0; CHECK_EQ(t.erase(k), (int)m.erase(k)); break;
        case 2: if (c.coin()) CHECK_MSG(t[k] == m[k], "map[" << k << "] is " << t[k].x << ", expected " << m[k].x); else { V v(++tag); t[k] = v; m[k] = v; } break;
        case 3: if (m.count(k)) { CHECK(ct.at(k) == m[k]); CHECK(t.at(k) == m[k]); if (c.coin()) { V v(++tag); t.at(k) = v; m[k] = v; } } else if (k > lo) { bool thrown = false; try { ct.at(k); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown); } break;
        case 4: CHECK_EQ(ct.count(k), (int)m.count(k)); break;
        case 5: { Mp x(t); t = x; break; } } }
    for (auto& e : m) { CHECK_EQ(t.count(e.first), 1); CHECK(t.at(e.first) == e.second); } c.nontrivial(erased && hi);
}

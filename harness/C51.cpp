// C51: dijkstra, floyd_warshall, prim_spanning_tree.
#include "graph_gen.h"
#include <limits>
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
using namespace altruct::graph;
// Bellman-Ford; the reference
template<typename W> static std::vector<W> bellman(int n, const EL& e, const std::vector<W>& w, int s, W inf) { std::vector<W> d(n, inf); d[s] = 0; for (int i = 0, more = 1; i < n && more; i++) { more = 0; for (size_t j = 0; j < e.size(); j++) if (d[e[j].first] != inf && d[e[j].first] + w[j] < d[e[j].second]) d[e[j].second] = d[e[j].first] + w[j], more = 1; } return d; }
template<typename W> static std::vector<W> weights(pbt::Ctx& c, size_t m, bool neg) { W big = c.pick<W>({ 1, 3, 10, 1000, 1000000 }); std::vector<W> w(m); for (auto& x : w) x = c.chance(1, 8) ? 0 : (W)c.range(0, (int64_t)big); (void)neg; return w; }
template<typename W> static void dij(pbt::Ctx& c, W inf) {
    int n = (int)c.size_mostly(1, 14, 130, 60); bool und = c.coin(); EL e = und ? both(gen_simple(c, n)) : gen_digraph(c, n, true, true); std::vector<W> w = weights<W>(c, e.size(), false); if (und) for (size_t i = 0; i < e.size() / 2; i++) w[i + e.size() / 2] = w[i]; SHOW(n); SHOW(e); SHOW(w);
    graph<weighted_edge<W>> g(n); for (size_t i = 0; i < e.size(); i++) g.add_edge(e[i].first, weighted_edge<W>(e[i].second, w[i])); int s = (int)c.below(n); SHOW(s); auto d = bellman(n, e, w, s, inf); auto r = dijkstra(g, s, inf); CHECK_EQ(r.size(), (size_t)n); int far = 0;
    for (int v = 0; v < n; v++) { CHECK_MSG(r[v].w == d[v], "distance to " << v << " is " << r[v].w << " should be " << d[v]); if (d[v] == inf) { CHECK_EQ(r[v].v, -1); continue; } if (v == s) { CHECK_EQ(r[v].v, s); continue; } int u = r[v].v; CHECK_MSG(u >= 0 && u < n && d[u] != inf, "predecessor " << u); bool ok = false; for (size_t i = 0; i < e.size(); i++) ok = ok || (e[i] == E2(u, v) && d[u] + w[i] == d[v]); CHECK_MSG(ok, "predecessor " << u << " of " << v << " is not on a shortest path");
        int x = v, k = 0; while (x != s && k <= n) x = r[x].v, k++; CHECK_MSG(x == s, "predecessors of " << v << " do not lead to the source"); far = std::max(far, k); }
    c.nontrivial(far > 2); c.label("zero weights", std::count(w.begin(), w.end(), 0) > 0);
}
PROP(dijkstra_int, 440000, 11000000) { dij<int>(c, c.pick<int>({ 2000000000, std::numeric_limits<int>::max(), 100000000 })); }
PROP(dijkstra_wide, 480000, 12000000) { if (c.coin()) dij<int64_t>(c, int64_t(1) << 60); else dij<double>(c, std::numeric_limits<double>::infinity()); }
template<typename W> static void floyd(pbt::Ctx& c, W inf) {
    int n = (int)c.size_mostly(1, 10, 70, 60); EL e = c.coin() ? both(gen_simple(c, n)) : gen_digraph(c, n, true, true); std::vector<W> w = weights<W>(c, e.size(), true); bool neg = c.coin(); if (neg) { std::vector<W> pot(n); for (auto& x : pot) x = (W)c.range(-20, 20); for (size_t i = 0; i < e.size(); i++) w[i] += pot[e[i].first] - pot[e[i].second]; } bool hasneg = false; for (auto x : w) hasneg = hasneg || x < 0; SHOW(n); SHOW(e); SHOW(w);
    graph<weighted_edge<W>> g(n); for (size_t i = 0; i < e.size(); i++) g.add_edge(e[i].first, weighted_edge<W>(e[i].second, w[i])); auto r = floyd_warshall(g, inf); CHECK_EQ(r.size(), (size_t)n); int far = 0; bool zero_cycle = false;
    for (int s = 0; s < n; s++) { auto d = bellman(n, e, w, s, inf); for (int v = 0; v < n; v++) { CHECK_MSG(r[s][v].w == d[v], "distance " << s << "->" << v << " is " << r[s][v].w << " should be " << d[v]); if (d[v] == inf) { CHECK_EQ(r[s][v].v, -1); continue; } if (s == v) { CHECK_EQ(r[s][v].v, v); continue; } int u = r[s][v].v; bool ok = false; for (size_t i = 0; i < e.size(); i++) ok = ok || (e[i] == E2(s, u) && r[u][v].w != inf && w[i] + r[u][v].w == d[v]); CHECK_MSG(ok, "next node " << u << " on " << s << "->" << v << " is not on a shortest path");
            int x = s, k = 0; while (x != v && k <= n) x = r[x][v].v, k++; CHECK_MSG(x == v, "following next nodes from " << s << " never reaches " << v); far = std::max(far, k); } }
    (void)zero_cycle; c.label("negative weights", hasneg); c.nontrivial(far > 2);
}
PROP(floyd_int, 370000, 9250000) { floyd<int>(c, c.pick<int>({ 100000000, 1000000000, 2147483647 })); }
PROP(floyd_wide, 360000, 9000000) { if (c.coin()) floyd<int64_t>(c, int64_t(1) << 60); else floyd<double>(c, 1e18); }
template<typename W> static void prim(pbt::Ctx& c, W inf) {
    int n = (int)c.size_mostly(1, 12, 130, 60); EL e = gen_simple(c, n); std::vector<W> w = weights<W>(c, e.size(), true); if (c.coin()) for (auto& x : w) x -= (W)c.range(0, 5); if (c.chance(1, 4) && e.size()) { size_t k = e.size(); for (int i = 0; i < 3; i++) { size_t j = c.below(k); e.push_back(e[j]); w.push_back((W)c.range(0, 9)); } } SHOW(n); SHOW(e); SHOW(w);
    graph<weighted_edge<W>> g(n); for (size_t i = 0; i < e.size(); i++) g.add_edge2(e[i].first, weighted_edge<W>(e[i].second, w[i])); int root = (int)c.below(n); SHOW(root); auto cp = comps(n, e); auto r = prim_spanning_tree(g, root, inf); CHECK_EQ(r.size(), (size_t)n);
    // Kruskal on the root's component
    std::vector<size_t> o(e.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return w[a] < w[b]; }); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; auto f = [&](int x) { while (p[x] != x) x = p[x]; return x; }; W mst = 0, got = 0; for (size_t i : o) if (cp[e[i].first] == cp[root]) { int a = f(e[i].first), b = f(e[i].second); if (a != b) p[a] = b, mst += w[i]; }
    int nodes = 0; for (int v = 0; v < n; v++) { if (cp[v] != cp[root]) { CHECK_EQ(r[v].v, -1); CHECK_EQ(r[v].w, inf); continue; } nodes++; if (v == root) { CHECK_EQ(r[v].v, root); CHECK_EQ(r[v].w, W(0)); continue; } bool ok = false; for (size_t i = 0; i < e.size(); i++) ok = ok || ((e[i] == E2(r[v].v, v) || e[i] == E2(v, r[v].v)) && w[i] == r[v].w); CHECK_MSG(ok, "parent " << r[v].v << " of " << v << " with distance " << r[v].w << " is not an edge"); got += r[v].w; int x = v, k = 0; while (x != root && k <= n) x = r[x].v, k++; CHECK_MSG(x == root, "parents of " << v << " do not lead to the root"); }
    CHECK_MSG(got == mst, "tree of weight " << got << ", minimum is " << mst); c.nontrivial(nodes > 3 && (int)e.size() > n);
}
PROP(prim_int, 480000, 12000000) { prim<int>(c, c.pick<int>({ 100000000, 2147483647 })); }
PROP(prim_wide, 360000, 9000000) { if (c.coin()) prim<int64_t>(c, int64_t(1) << 60); else prim<double>(c, 1e18); }

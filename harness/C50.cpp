// C50: disjoint_set and the graph structure.
#include "graph_gen.h"
#include <map>
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/graph/graph.h"
using namespace altruct::graph;
PROP(disjoint_set_history, 32000, 800000) {
    size_t n0 = c.chance(1, 4) ? 0 : c.size_mostly(0, 40, 1000, 60); disjoint_set d(n0); std::vector<size_t> id(n0), cnt(n0, 1); for (size_t i = 0; i < n0; i++) id[i] = i; SHOW(n0);
    auto ensure = [&](size_t x) { while (id.size() <= x) { id.push_back(id.size()); cnt.push_back(1); } }; size_t steps = c.range(0, 60), merges = 0, noop = 0; int shape = (int)c.below(3); size_t lim = std::max<size_t>(n0, 1) + (c.chance(1, 4) ? 5 : 0);
    for (size_t s = 0; s < steps; s++) { size_t x = c.below(lim), y = shape == 1 ? (x + 1) % lim : c.below(lim); int op = (int)c.weighted({ 10, 5, 3, 2, 1 }); c.show("op", std::make_tuple(op, x, y));
        if (op == 0) { ensure(x); ensure(y); bool exp = id[x] != id[y]; CHECK_EQ(d.unite(x, y), exp); if (exp) { size_t a = id[x], b = id[y], t = cnt[a] + cnt[b]; for (auto& z : id) if (z == b) z = a; cnt[a] = t; merges++; } else noop++; }
        else if (op == 1) { ensure(x); size_t r = d.find(x); CHECK_MSG(r < id.size() && id[r] == id[x], "find(" << x << ") = " << r << " is in another set"); CHECK_EQ(d.find(r), r); }
        else if (op == 2) { ensure(x); CHECK_EQ(d.count(x), cnt[id[x]]); }
        else if (op == 3) { ensure(x); size_t k = c.below(5); d.add_count(x, k); cnt[id[x]] += k; }
        else if (c.chance(1, 6)) { size_t m = c.range(0, 20); d.clear(m); id.resize(m); cnt.assign(m, 1); for (size_t i = 0; i < m; i++) id[i] = i; }
        CHECK_EQ(d.size(), id.size()); CHECK_EQ(d.distinct(), std::set<size_t>(id.begin(), id.end()).size()); }
    disjoint_set e = d; for (size_t i = 0; i < id.size(); i++) for (size_t j = 0; j < id.size(); j++) CHECK_EQ(e.find(i) == e.find(j), id[i] == id[j]); for (size_t i = 0; i < id.size(); i++) CHECK_EQ(e.count(i), cnt[id[i]]);
    c.nontrivial(merges > 3 && noop);
}
typedef weighted_edge<int> We;
static bool operator!=(const We& a, const We& b) { return a.v != b.v || a.w != b.w; }
// model: for each node a multiset of (destination, weight)
typedef std::vector<std::multiset<E2>> GM;
static GM modelOf(const graph<We>& g) { GM m(g.size()); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) m[u].insert({ e.v, e.w }); return m; }
PROP(graph_history, 230000, 5750000) {
    int n = (int)c.size_mostly(0, 9, 40, 60); graph<We> g(n); GM m(n); int w = 0; bool del = false, con = false; size_t steps = c.range(1, 25); auto isp = c.coin(); SHOW(n);
    for (size_t s = 0; s < steps; s++) { n = g.size(); int op = (int)c.weighted({ 3, 12, 8, 4, 2, 2, 2 }); if (n == 0) op = 0; int u = n ? (int)c.below(n) : 0, v = n ? (int)c.below(n) : 0; c.show("op", std::make_tuple(op, u, v)); int k = ++w;
        if (op == 0) { CHECK_EQ(g.add_node(), n); m.emplace_back(); }
        else if (op == 1) { g.add_edge(u, We(v, k)); m[u].insert({ v, k }); }
        else if (op == 2) { if (u == v) continue; g.add_edge2(u, We(v, k)); m[u].insert({ v, k }); m[v].insert({ u, k }); }
        else if (op == 3) { g.delete_edge(u, v); for (auto it = m[u].begin(); it != m[u].end();) if (it->first == v) it = m[u].erase(it), del = true; else ++it; }
        else if (op == 4) { g.delete_node(u); del = true; GM r; std::vector<int> name(n); for (int i = 0; i < n; i++) name[i] = i == u ? -1 : i == n - 1 ? u : i; r.resize(n - 1); for (int i = 0; i < n; i++) if (i != u) for (auto& e : m[i]) if (e.first != u) r[name[i]].insert({ name[e.first], e.second }); m = r; }
        else if (op == 5) { g.deduplicate_edges(u); std::set<int> dst; for (auto& e : m[u]) dst.insert(e.first); std::multiset<E2> got; std::set<int> gd; for (auto& e : g[u]) { got.insert({ e.v, e.w }); CHECK_MSG(gd.insert(e.v).second, "still a duplicate to " << e.v); } CHECK_EQ(gd, dst); for (auto& e : got) CHECK_MSG(m[u].count(e), "edge " << e.first << "," << e.second << " was not there"); m[u] = got; }
        else { if (u == v) continue; con = true; // contraction: v merges into u, no edge between the two remains, parallel edges collapse to one
            std::vector<int> name(n); for (int i = 0; i < n; i++) name[i] = i == v ? -1 : i == n - 1 ? v : i; name[v] = name[u]; std::vector<std::map<int, std::set<int>>> allowed(n - 1);
            for (int i = 0; i < n; i++) for (auto& e : m[i]) { if ((i == u && e.first == v) || (i == v && e.first == u)) continue; allowed[name[i]][name[e.first]].insert(e.second); }
            g.contract(u, v); CHECK_EQ(g.size(), n - 1); for (int i = 0; i < n - 1; i++) { std::set<int> got; for (auto& e : g[i]) { CHECK_MSG(got.insert(e.v).second, "parallel edge after contract"); CHECK_MSG(allowed[i].count(e.v) && allowed[i][e.v].count(e.w), "edge " << i << "->" << e.v << " must not exist"); } CHECK_EQ(got.size(), allowed[i].size()); } m = modelOf(g); }
        CHECK_EQ(g.size(), (int)m.size()); CHECK_EQ(modelOf(g), m); int total = 0; for (auto& x : m) total += (int)x.size(); CHECK_EQ(g.num_edges(), total); }
    graph<We> h(g.adjl); CHECK(h == g); CHECK(!(h < g)); h.add_node(); CHECK(!(h == g)); CHECK(g < h);
    c.nontrivial(del && con); (void)isp;
}
PROP(edges, 1700000, 42500000) {
    auto f = [&] { return full_edge((int)c.range(-2, 2), c.coin() ? (int)c.range(-2, 2) : c.any<int>()); }; full_edge a = f(), b = f(); c.show("a", E2(a.u, a.v)); c.show("b", E2(b.u, b.v)); CHECK_EQ(a < b, E2(a.u, a.v) < E2(b.u, b.v)); CHECK_EQ(a == b, E2(a.u, a.v) == E2(b.u, b.v)); if (a == b) CHECK_EQ(std::hash<full_edge>()(a), std::hash<full_edge>()(b)); c.nontrivial(a.u == b.u);
    weighted_full_edge<int> x(a.u, a.v, 1), y(b.u, b.v, 2); CHECK_EQ(x < y, E2(a.u, a.v) < E2(b.u, b.v)); CHECK_EQ(x == y, E2(a.u, a.v) == E2(b.u, b.v)); CHECK_EQ(edge(a.v) < edge(b.v), a.v < b.v); CHECK_EQ(edge(a.v) == edge(b.v), a.v == b.v); CHECK_EQ(We(a.v, 1) < We(b.v, 0), a.v < b.v);
    std::unordered_set<full_edge> s; std::set<E2> r; for (int i = (int)c.range(0, 12); i > 0; i--) { auto q = f(); CHECK_EQ(s.insert(q).second, r.insert({ q.u, q.v }).second); } for (auto& q : r) CHECK_EQ(s.count(full_edge(q.first, q.second)), 1u);
}

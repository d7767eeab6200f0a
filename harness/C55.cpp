// C55: iterative_dfs, parents, lowest_common_ancestor, heavy_light_decomposition.
#include "graph_gen.h"
#include <limits>
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
using namespace altruct::graph;
// the traversal must be a depth first traversal consistent with adjacency order and the visitor's answers: recursive reference
struct Ev { int root, parent, node, depth; bool operator==(const Ev& o) const { return root == o.root && parent == o.parent && node == o.node && depth == o.depth; } };
static std::ostream& operator<<(std::ostream& os, const Ev& e) { return os << "(" << e.root << " " << e.parent << " " << e.node << " " << e.depth << ")"; }
PROP(dfs_events, 380000, 9500000) {
    int n = (int)c.size_mostly(1, 10, 150); EL e = c.coin() ? both(gen_simple(c, n)) : gen_digraph(c, n, true, true); SHOW(n); SHOW(e); graph<edge> g(n); for (auto& x : e) g.add_edge(x.first, x.second); int src = c.chance(1, 3) ? (int)c.below(n) : -1; bool deny = c.chance(1, 3); std::vector<char> no(n); if (deny) for (auto& x : no) x = c.chance(1, 4); int flip = deny && c.coin() ? 2 : 1; SHOW(src); SHOW(no); SHOW(flip);
    // refusing visitor: refuses the first `flip` - 1 or all offers of a marked node
    auto mkv = [&](std::vector<Ev>& log, std::vector<int>& cnt) { return [&log, &cnt, &no, flip](int root, int parent, int node, int depth) { log.push_back({ root, parent, node, depth }); if (node < 0) return false; if (!no[node]) return true; return ++cnt[node] >= flip && flip == 2; }; };
    std::vector<Ev> got, exp; std::vector<int> c1(n), c2(n); iterative_dfs(g, mkv(got, c1), src); auto vis = mkv(exp, c2); std::vector<char> seen(n); std::function<void(int, int, int)> go = [&](int root, int u, int d) { for (auto& x : g[u]) { int v = x.v; if (seen[v]) continue; if (vis(root, u, v, d)) { seen[v] = 1; go(root, v, d + 1); } } vis(root, u, -1, d); };
    for (int o = 0; o < n; o++) { if (src >= 0 && o != src) continue; if (seen[o]) continue; if (vis(o, -1, o, 0)) { seen[o] = 1; go(o, o, 1); } } CHECK_EQ(got, exp); c.nontrivial(exp.size() > 8);
    std::vector<int> par(n, -1), p = parents(g); std::fill(seen.begin(), seen.end(), 0); std::function<void(int)> go2 = [&](int u) { seen[u] = 1; for (auto& x : g[u]) if (!seen[x.v]) par[x.v] = u, go2(x.v); }; for (int o = 0; o < n; o++) if (!seen[o]) go2(o); CHECK_EQ(p, par);
}
struct Tree { int n; std::vector<int> par, dep; EL e; };   // rooted at the lowest numbered node of each component
static Tree gen_tree(pbt::Ctx& c, int n, bool forest) {
    Tree t; t.n = n; auto p = gen_parents(c, n, forest); std::vector<size_t> nm(n); for (int i = 0; i < n; i++) nm[i] = i; if (c.coin()) { auto q = c.permutation(n); for (int i = 0; i < n; i++) nm[i] = q[i]; } for (int i = 0; i < n; i++) if (p[i] >= 0) t.e.push_back(c.coin() ? E2((int)nm[i], (int)nm[p[i]]) : E2((int)nm[p[i]], (int)nm[i])); shuffle_c(c, t.e);
    t.par.assign(n, -2); t.dep.assign(n, 0); std::vector<std::vector<int>> a(n); for (auto& x : t.e) a[x.first].push_back(x.second), a[x.second].push_back(x.first); for (int r = 0; r < n; r++) if (t.par[r] == -2) { t.par[r] = -1; std::vector<int> q{ r }; for (size_t i = 0; i < q.size(); i++) for (int v : a[q[i]]) if (t.par[v] == -2) t.par[v] = q[i], t.dep[v] = t.dep[q[i]] + 1, q.push_back(v); } return t; }
static int lcaRef(const Tree& t, int u, int v) { while (u != v) { if (u < 0 || v < 0) return -1; if (t.dep[u] >= t.dep[v] && t.par[u] >= 0) u = t.par[u]; else if (t.dep[v] >= t.dep[u] && t.par[v] >= 0) v = t.par[v]; else if (t.par[u] >= 0) u = t.par[u]; else if (t.par[v] >= 0) v = t.par[v]; else return -1; } return u; }
PROP(lca, 210000, 5250000) {
    int n = (int)c.range(0, c.chance(1, 5) ? c.chance(1, 20) ? 1100 : 70 : 16); Tree t = gen_tree(c, n, c.coin()); SHOW(n); c.show("edges", t.e); graph<weighted_edge<int>> g(n); for (auto& x : t.e) g.add_edge2(x.first, weighted_edge<int>(x.second, 1)); lowest_common_ancestor l(g); int deep = 0;
    for (int u = 0; u < n; u++) CHECK_EQ(l.depth(u), t.dep[u]); int q = n <= 16 ? n * n : 60; for (int i = 0; i < q; i++) { int u = n <= 16 ? i / n : (int)c.below(n), v = n <= 16 ? i % n : (int)c.below(n); int a = lcaRef(t, u, v); CHECK_MSG(l.ancestor(u, v) == a, "lca(" << u << "," << v << ") = " << l.ancestor(u, v) << " should be " << a); CHECK_EQ(l.distance(u, v), a < 0 ? -1 : t.dep[u] + t.dep[v] - 2 * t.dep[a]); if (a >= 0) deep = std::max(deep, t.dep[a]); } if (n) { CHECK_EQ(l.ancestor(-1, 0), -1); CHECK_EQ(l.ancestor(0, -1), -1); CHECK_EQ(l.depth(-1), -1); CHECK_EQ(l.distance(-1, 0), -1); } c.nontrivial(deep >= 2);
}
template<typename G> static void hldCheck(pbt::Ctx& c, heavy_light_decomposition& h, const Tree& t, const G& g) {
    int n = t.n; std::vector<int> size(n, 1); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; std::sort(ord.begin(), ord.end(), [&](int a, int b) { return t.dep[a] > t.dep[b]; }); for (int u : ord) if (t.par[u] >= 0) size[t.par[u]] += size[u]; std::vector<char> used(n);
    for (int u = 0; u < n; u++) { CHECK_EQ(h.subtree_size(u), size[u]); int p = h.position(u); CHECK_MSG(p >= 0 && p < n && !used[p], "position " << p << " of " << u); used[p] = 1; CHECK_EQ(h.node(p), u); }
    for (int u = 0; u < n; u++) { for (int v = 0; v < n; v++) { int x = v; while (x >= 0 && x != u) x = t.par[x]; bool in = x == u; CHECK_MSG(in == (h.position(v) >= h.position(u) && h.position(v) < h.position(u) + size[u]), "subtree of " << u << " is not the range of its size from its position (node " << v << ")"); }
        // the chain of u: go up while positions are consecutive up to the chain's parent
        int cp = h.parent(u), x = u; while (x >= 0 && t.par[x] != cp) { CHECK_MSG(h.position(t.par[x]) == h.position(x) - 1, "chain of " << u << " is not continuous at " << x); x = t.par[x]; CHECK_MSG(x >= 0, "chain parent " << cp << " of " << u << " is not an ancestor"); }
        int chains = 0; for (int y = u; y >= 0; y = h.parent(y)) chains++; CHECK_MSG(chains >= 1 && (1 << (chains - 1)) <= n, "path from " << u << " to the root crosses " << chains << " chains"); }
    (void)c; (void)g;
}
PROP(hld, 210000, 5250000) {
    int n = (int)c.range(1, c.chance(1, 6) ? c.chance(1, 15) ? 300 : 60 : 15); Tree t = gen_tree(c, n, c.chance(1, 3)); SHOW(n); c.show("edges", t.e); bool weighted = c.coin(); SHOW(weighted); c.nontrivial(n > 6);
    if (weighted) { graph<weighted_edge<int>> g(n); std::vector<std::multiset<E2>> before(n), after(n); int w = 100; for (auto& x : t.e) g.add_edge2(x.first, weighted_edge<int>(x.second, ++w)); for (int u = 0; u < n; u++) for (auto& x : g[u]) before[u].insert({ x.v, x.w }); heavy_light_decomposition h(g); hldCheck(c, h, t, g); for (int u = 0; u < n; u++) for (auto& x : g[u]) after[u].insert({ x.v, x.w }); CHECK_MSG(before == after, "the edges of the graph changed"); }
    else { graph<edge> g(n); for (auto& x : t.e) g.add_edge2(x.first, edge(x.second)); heavy_light_decomposition h(g); hldCheck(c, h, t, g); }
}
PROP(hld_walk, 150000, 3750000) {
    int n = (int)c.range(1, c.chance(1, 6) ? c.chance(1, 15) ? 300 : 60 : 15); Tree t = gen_tree(c, n, c.chance(1, 4)); SHOW(n); c.show("edges", t.e); graph<edge> g(n); for (auto& x : t.e) g.add_edge2(x.first, edge(x.second)); heavy_light_decomposition_ex h(g); bool far = false;
    for (int q = 0; q < 12; q++) { int u = (int)c.below(n), v = (int)c.below(n), a = lcaRef(t, u, v); CHECK_EQ(h.depth(u), t.dep[u]); CHECK_EQ(h.ancestor(u, v), a); CHECK_EQ(h.node(h.position(u)), u); CHECK_EQ(h.subtree_size(u), h.hld.subtree_size(u)); int k = (int)c.range(-1, 6); int x = u; for (int i = 0; i < k && x >= 0; i++) x = t.par[x]; if (k < 0) x = -1; CHECK_MSG(h.parent(u, k) == x, "parent(" << u << "," << k << ") = " << h.parent(u, k) << " should be " << x); for (int i = 0; i <= t.dep[u] + 1; i++) { int y = u; for (int j = 0; j < i && y >= 0; j++) y = t.par[y]; CHECK_MSG(h.parent(u, i) == y, "parent(" << u << "," << i << ") = " << h.parent(u, i) << " should be " << y); }
        if (a < 0) { CHECK_EQ(h.distance(u, v), -1); continue; }
        std::vector<int> path, down; for (int y = u; y != a; y = t.par[y]) path.push_back(y); size_t up = path.size(); for (int y = v; y != a; y = t.par[y]) down.push_back(y); std::vector<int> nodes = path; nodes.push_back(a); nodes.insert(nodes.end(), down.rbegin(), down.rend()); path.insert(path.end(), down.rbegin(), down.rend()); CHECK_EQ(h.distance(u, v), (int)path.size());
        for (int pass = 0; pass < 2; pass++) { const auto& P = pass ? nodes : path; std::vector<int> got(P.size(), -1); int segs = 0; auto vis = [&](int cb, int ce, int pf, int pl, int len, bool rev) { segs++; CHECK_EQ(len, (int)P.size()); CHECK_MSG(0 <= cb && cb < ce && ce <= n, "segment [" << cb << "," << ce << ")"); CHECK_EQ(pl >= pf ? pl - pf : pf - pl, ce - cb - 1); if (pf != pl) CHECK_EQ(rev, pf > pl); int step = pf <= pl ? 1 : -1; for (int i = cb, j = pf; i < ce; i++, j += step) { CHECK_MSG(j >= 0 && j < (int)got.size() && got[j] < 0, "path index " << j); got[j] = h.node(i); } }; int len = pass ? h.walk_nodes(u, v, vis) : h.walk_edges(u, v, vis); CHECK_EQ(len, (int)P.size()); CHECK_EQ(got, P); if (segs > 2) far = true; int lg = 0; while ((1 << lg) < n) lg++; CHECK_MSG(segs <= 2 * lg + 3, segs << " segments for " << n << " nodes"); }
        (void)up; }
    c.nontrivial(far);
}
// deep trees and long chains: everything must work without recursion and in near-linear time
PROP(deep_trees, 140, 3500) {
    int n = (int)c.range(2, c.chance(1, 3) ? 300000 : 60000); int shape = (int)c.below(4), k = 1 + (int)c.below(50); uint64_t s = c.any<uint64_t>() | 1; auto rnd = [&](int m) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (int)(s % (uint64_t)m); }; SHOW(n); SHOW(shape); SHOW(k);
    std::vector<int> p(n, -1), dep(n, 0), top(n, 0); for (int i = 1; i < n; i++) { p[i] = shape == 0 ? i - 1 : shape == 1 ? (i % 2 ? std::max(0, i - 2) : i - 2 < 0 ? 0 : i - 2) : shape == 2 ? std::max(0, i - 1 - rnd(k)) : (i % k == 1 || i == 1 ? 0 : i - 1); if (p[i] < 0) p[i] = 0; dep[i] = dep[p[i]] + 1; }
    graph<edge> g(n); for (int i = 1; i < n; i++) g.add_edge2(p[i], edge(i)); int maxd = *std::max_element(dep.begin(), dep.end()); c.nontrivial(maxd > 10000);
    lowest_common_ancestor l(g); heavy_light_decomposition_ex h(g); std::vector<int> par = parents(g); CHECK(par == p);
    // ancestors by climbing; the climbed node is marked so that each query costs O(depth)
    std::vector<int> mark(n, -1); for (int q = 0; q < 12; q++) { int u = c.coin() ? n - 1 - (int)c.below(std::min(n, 5)) : (int)c.below(n), v = (int)c.below(n); SHOW(u); SHOW(v); for (int x = u; x >= 0; x = p[x]) mark[x] = q; int a = v; while (mark[a] != q) a = p[a]; CHECK_EQ(l.ancestor(u, v), a); CHECK_EQ(l.distance(u, v), dep[u] + dep[v] - 2 * dep[a]); CHECK_EQ(h.ancestor(u, v), a); CHECK_EQ(h.distance(u, v), dep[u] + dep[v] - 2 * dep[a]); CHECK_EQ(h.depth(v), dep[v]); int up = (int)c.below(dep[u] + 2), x = u; for (int i = 0; i < up && x >= 0; i++) x = p[x]; CHECK_EQ(h.parent(u, up), x); int len = 0, segs = 0; h.walk_nodes(u, v, [&](int cb, int ce, int, int, int, bool) { len += ce - cb; segs++; }); CHECK_EQ(len, dep[u] + dep[v] - 2 * dep[a] + 1); int lg = 0; while ((1 << lg) < n) lg++; CHECK_MSG(segs <= 2 * lg + 3, segs << " segments"); }
    std::vector<int> sz(n, 1); for (int i = n - 1; i > 0; i--) sz[p[i]] += sz[i]; for (int i = 0; i < n; i++) { CHECK_EQ(h.subtree_size(i), sz[i]); CHECK_EQ(h.node(h.position(i)), i); if (i) CHECK(h.position(p[i]) < h.position(i) && h.position(i) + sz[i] <= h.position(p[i]) + sz[p[i]]); }
}

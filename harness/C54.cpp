// C54: chain decomposition, bridges, articulation points, biconnected components, block-cut tree.
#include "graph_gen.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
using namespace altruct::graph;
static E2 nrm(int u, int v) { return u < v ? E2(u, v) : E2(v, u); }
struct Truth { std::set<E2> bridges; std::set<int> cut; std::set<std::vector<int>> blocks; };
static Truth truth(int n, const EL& e) {
    Truth t; int base = num_comps(n, e); for (auto& x : e) if (num_comps(n, e, -1, x) > base) t.bridges.insert(nrm(x.first, x.second)); std::vector<std::vector<int>> cw(n); for (int w = 0; w < n; w++) { cw[w] = comps(n, e, w); std::set<int> ids; for (int i = 0; i < n; i++) if (i != w) ids.insert(cw[w][i]); bool iso = true; for (auto& x : e) if (x.first == w || x.second == w) iso = false; if ((int)ids.size() > base - (iso ? 1 : 0)) t.cut.insert(w); }
    auto all = comps(n, e); std::set<E2> adj; for (auto& x : e) adj.insert(nrm(x.first, x.second)); auto same = [&](int u, int v) { if (u == v) return true; if (all[u] != all[v]) return false; if (adj.count(nrm(u, v))) return t.bridges.count(nrm(u, v)) == 0; for (int w = 0; w < n; w++) if (w != u && w != v && cw[w][u] != cw[w][v]) return false; for (auto& b : t.bridges) { auto p = comps(n, e, -1, b); if (p[u] != p[v]) return false; } return true; };
    for (auto& x : e) if (!t.bridges.count(nrm(x.first, x.second))) { std::vector<int> b; for (int w = 0; w < n; w++) if (same(x.first, w) && same(x.second, w)) b.push_back(w); t.blocks.insert(b); } return t; }
PROP(biconnectivity_of_simple_graphs, 300000, 7500000) {
    int n = (int)c.range(0, c.chance(1, 5) ? c.chance(1, 30) ? 70 : 22 : 11); EL e = gen_simple(c, n); SHOW(n); SHOW(e); graph<edge> g(n); for (auto& x : e) g.add_edge2(x.first, edge(x.second)); Truth t = truth(n, e); biconnectivity<edge> b(g);
    // chains
    CHECK_EQ((int)b.decomposition.size(), num_comps(n, e)); std::set<E2> onchain; std::set<E2> edges; for (auto& x : e) edges.insert(nrm(x.first, x.second)); auto cp = comps(n, e); size_t nchains = 0; for (auto& comp : b.decomposition) { int id = -1; for (auto& bi : comp) { CHECK(bi.size() > 0); for (size_t i = 0; i < bi.size(); i++) { auto& ch = bi[i]; nchains++; CHECK(ch.size() >= 2); CHECK_MSG((ch.front() == ch.back()) == (i == 0), "chain " << i << " of a block " << (i ? "is a cycle" : "is not a cycle")); std::set<int> vs(ch.begin(), ch.end()); CHECK_MSG(vs.size() == ch.size() - (i == 0), "a node repeats inside a chain"); for (size_t j = 0; j < ch.size(); j++) { CHECK(ch[j] >= 0 && ch[j] < n); if (id < 0) id = cp[ch[j]]; CHECK_EQ(cp[ch[j]], id); if (j) { CHECK_MSG(edges.count(nrm(ch[j - 1], ch[j])), "not an edge: " << ch[j - 1] << "-" << ch[j]); CHECK_MSG(onchain.insert(nrm(ch[j - 1], ch[j])).second, "edge on two chains"); } } } } }
    CHECK_EQ(onchain.size() + t.bridges.size(), edges.size());
    std::set<E2> br; for (auto& x : b.cut_edges) CHECK_MSG(br.insert(nrm(x.u, x.v)).second, "bridge twice"); CHECK_EQ(br, t.bridges); CHECK_EQ(std::set<int>(b.cut_vertices.begin(), b.cut_vertices.end()), t.cut); CHECK_EQ(b.cut_vertices.size(), t.cut.size());
    std::set<std::vector<int>> bl; for (auto x : b.components) { std::sort(x.begin(), x.end()); CHECK_MSG(bl.insert(x).second, "block twice"); } CHECK_EQ(bl, t.blocks);
    // block-cut tree
    std::vector<int> deg(n); for (auto& x : e) deg[x.first]++, deg[x.second]++; int nb = (int)b.components.size(), na = (int)t.cut.size(), nl = 0; for (int u = 0; u < n; u++) nl += deg[u] <= 1; CHECK_EQ(b.block_cut_tree.size(), nb + na + nl); CHECK_EQ((int)b.bc_tree_idx.size(), n); std::vector<int> used(nb + na + nl);
    for (int u = 0; u < n; u++) { int i = b.bc_tree_idx[u]; CHECK(i >= 0 && i < nb + na + nl); if (t.cut.count(u)) { CHECK_MSG(i >= nb && i < nb + na, "articulation point " << u << " mapped to " << i); CHECK(used[i]++ == 0); } else if (deg[u] <= 1) { CHECK(i >= nb + na); CHECK(used[i]++ == 0); } else { CHECK_MSG(i < nb && std::count(b.components[i].begin(), b.components[i].end(), u), "node " << u << " mapped to " << i); } }
    std::multiset<E2> te, exp; for (int u = 0; u < b.block_cut_tree.size(); u++) for (auto& x : b.block_cut_tree[u]) te.insert({ u, x.v }); for (int i = 0; i < nb; i++) for (int u : b.components[i]) if (t.cut.count(u)) exp.insert({ i, b.bc_tree_idx[u] }), exp.insert({ b.bc_tree_idx[u], i }); for (auto& x : t.bridges) { int p = b.bc_tree_idx[x.first], q = b.bc_tree_idx[x.second]; exp.insert({ p, q }); exp.insert({ q, p }); } CHECK_EQ(te, exp); EL tel; for (auto& x : te) if (x.first < x.second) tel.push_back(x); CHECK_MSG((int)tel.size() == b.block_cut_tree.size() - num_comps(n, e) && num_comps(b.block_cut_tree.size(), tel) == num_comps(n, e), "the block-cut tree is not a forest with one tree per component");
    c.nontrivial(t.blocks.size() > 0 && t.cut.size() > 0); c.label("several blocks", t.blocks.size() > 1); c.label("bridges", t.bridges.size() > 0);
}

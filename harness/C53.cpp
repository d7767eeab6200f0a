// C53: tarjan_scc, topological_sort, in_degrees, transitive_closure / reduction, sat2.
#include "graph_gen.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/graph/sat2.h"
using namespace altruct::graph;
static graph<edge> mk(int n, const EL& e) { graph<edge> g(n); for (auto& x : e) g.add_edge(x.first, x.second); return g; }
PROP(scc, 350000, 8750000) {
    int n = (int)c.size_mostly(0, 14, 120, 60); EL e = gen_digraph(c, n, true, true); SHOW(n); SHOW(e); auto R = reach(n, e); auto s = tarjan_scc(mk(n, e)); std::vector<int> id(n, -1); int big = 0; for (size_t i = 0; i < s.size(); i++) { CHECK(s[i].size() > 0); big += s[i].size() > 1; for (int u : s[i]) { CHECK_MSG(u >= 0 && u < n && id[u] < 0, "node " << u << " listed twice"); id[u] = (int)i; } }
    for (int u = 0; u < n; u++) { CHECK_MSG(id[u] >= 0, "node " << u << " missing"); for (int v = 0; v < n; v++) if (u != v) CHECK_MSG((id[u] == id[v]) == (R[u][v] && R[v][u]), "nodes " << u << " and " << v << " wrongly " << (id[u] == id[v] ? "joined" : "separated")); } for (auto& x : e) CHECK_MSG(id[x.first] <= id[x.second], "edge " << x.first << "->" << x.second << " goes backwards"); c.nontrivial(big > 0 && s.size() > 2);
}
PROP(topological, 270000, 6750000) {
    int n = (int)c.size_mostly(0, 14, 200, 60); EL e = gen_dag(c, n, true); SHOW(n); SHOW(e); auto g = mk(n, e); std::vector<int> deg(n); for (auto& x : e) deg[x.second]++; CHECK_EQ(in_degrees(g), deg); auto t = topological_sort(g); CHECK_EQ(t.size(), (size_t)n); std::vector<int> pos(n, -1); for (int i = 0; i < n; i++) { CHECK_MSG(t[i] >= 0 && t[i] < n && pos[t[i]] < 0, "node " << t[i] << " twice"); pos[t[i]] = i; } for (auto& x : e) CHECK_MSG(pos[x.first] < pos[x.second], "edge " << x.first << "->" << x.second << " goes backwards"); c.nontrivial(e.size() > 3);
    EL d = gen_digraph(c, n, true, true); deg.assign(n, 0); for (auto& x : d) deg[x.second]++; CHECK_EQ(in_degrees(mk(n, d)), deg);
}
PROP(closure, 260000, 6500000) {
    int n = (int)c.size_mostly(0, 12, 90, 60); bool dag = c.coin(); EL e = dag ? gen_dag(c, n, true) : gen_digraph(c, n, true, true); SHOW(n); SHOW(e); auto R = reach(n, e); auto t = transitive_closure(mk(n, e)); CHECK_EQ(t.size(), n); int k = 0; for (int u = 0; u < n; u++) { std::set<int> s; for (auto& x : t[u]) CHECK_MSG(s.insert(x.v).second, "edge " << u << "->" << x.v << " twice"); for (int v = 0; v < n; v++) if (u != v) { CHECK_MSG(s.count(v) == (size_t)(R[u][v] != 0), u << "->" << v << (R[u][v] ? " missing" : " must not be")); k += R[u][v]; } if (dag) CHECK_MSG(!s.count(u), "loop"); } c.nontrivial(k > (int)e.size() + 2);
}
PROP(reduction, 310000, 7750000) {
    int n = (int)c.size_mostly(0, 12, 90, 60); EL e = gen_dag(c, n, true); SHOW(n); SHOW(e); auto R = reach(n, e); std::set<E2> exp; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (R[u][v]) { bool direct = true; for (int w = 0; w < n; w++) if (R[u][w] && R[w][v]) direct = false; if (direct) exp.insert({ u, v }); } auto t = transitive_reduction(mk(n, e)); CHECK_EQ(t.size(), n); EL got; for (int u = 0; u < n; u++) for (auto& x : t[u]) got.push_back({ u, x.v }); std::sort(got.begin(), got.end()); CHECK_EQ(got, EL(exp.begin(), exp.end())); c.nontrivial(std::set<E2>(e.begin(), e.end()).size() > exp.size() + 1);
}
static bool holds(const EL& cl, const std::vector<int>& a) { for (auto& x : cl) { bool ok = false; if (x.first >= 0) ok = ok || a[x.first / 2] == x.first % 2; if (x.second >= 0) ok = ok || a[x.second / 2] == x.second % 2; if (!ok) return false; } return true; }
PROP(two_sat, 210000, 5250000) {
    int n = (int)c.range(1, 9); int m = (int)c.range(0, n * 2 + 2); EL cl; std::vector<int> hid(n); for (auto& x : hid) x = c.coin(); bool plant = c.coin(), chain = c.chance(1, 4);
    for (int i = 0; i < m; i++) { int a = (int)c.below(2 * n), b = chain ? (int)((a + 1 + c.below(3)) % (2 * n)) : (int)c.below(2 * n); if (c.chance(1, 12)) (c.coin() ? a : b) = -1; else if (c.chance(1, 10)) b = a; if (plant && a >= 0 && hid[a / 2] != a % 2 && (b < 0 || hid[b / 2] != b % 2)) a ^= 1; if (plant && a < 0 && b >= 0 && hid[b / 2] != b % 2) b ^= 1; if (!plant && c.chance(1, 200)) a = b = -1; cl.push_back({ a, b }); }
    std::vector<int> init(c.chance(1, 2) ? 0 : c.range(0, n + 2), -1); for (auto& x : init) if (c.chance(1, 3)) x = c.coin(); if (plant && c.coin()) for (size_t i = 0; i < init.size() && i < (size_t)n; i++) if (init[i] >= 0) init[i] = hid[i]; SHOW(n); SHOW(cl); SHOW(init);
    int vars = std::max<int>(n, (int)init.size()); bool sat = false, sat0 = false; for (int msk = 0; msk < 1 << n; msk++) { std::vector<int> a(vars); bool ok = true; for (int i = 0; i < n; i++) { a[i] = msk >> i & 1; if (i < (int)init.size() && init[i] >= 0 && init[i] != a[i]) ok = false; } if (!holds(cl, a)) continue; sat0 = true; if (ok) { sat = true; break; } }
    std::vector<int> sol = init; bool r = sat2(sol, cl); CHECK_EQ(r, sat); if (sat) { for (size_t i = 0; i < init.size(); i++) if (init[i] >= 0) CHECK_MSG(sol[i] == init[i], "given value of variable " << i << " changed"); std::vector<int> a = sol; for (auto& x : cl) CHECK_MSG((x.first < 0 || x.first / 2 < (int)sol.size()) && (x.second < 0 || x.second / 2 < (int)sol.size()), "variable without value"); for (auto& x : cl) for (int l : { x.first, x.second }) if (l >= 0) CHECK_MSG(sol[l / 2] == 0 || sol[l / 2] == 1, "variable " << l / 2 << " unassigned"); CHECK_MSG(holds(cl, a), "assignment does not satisfy the clauses"); }
    auto s2 = sat2(cl); if (!sat0) CHECK_EQ(s2, std::vector<int>()); else if (cl.size()) CHECK_MSG(holds(cl, s2), "assignment does not satisfy the clauses"); c.nontrivial(m > n); c.label("unsatisfiable", !sat);
}
// larger formulas against reachability in the implication graph
PROP(two_sat_large, 59000, 1475000) {
    int n = (int)c.range(8, 60), m = (int)c.range(n / 2, n + n / 2); EL cl; bool plant = c.chance(1, 3); std::vector<int> hid(n); for (auto& x : hid) x = c.coin(); for (int i = 0; i < m; i++) { int a = (int)c.below(2 * n), b = c.coin() ? (int)((a + 1 + c.below(4)) % (2 * n)) : (int)c.below(2 * n); if (plant && hid[a / 2] != a % 2 && hid[b / 2] != b % 2) a ^= 1; cl.push_back({ a, b }); } std::vector<int> init; if (c.coin()) { init.assign(n, -1); for (int i = 0; i < 2; i++) { int j = (int)c.below(n); init[j] = plant ? hid[j] : (int)c.coin(); } } SHOW(n); SHOW(cl); SHOW(init);
    EL imp; for (auto& x : cl) imp.push_back({ x.first ^ 1, x.second }), imp.push_back({ x.second ^ 1, x.first }); for (size_t i = 0; i < init.size(); i++) if (init[i] >= 0) imp.push_back({ (int)(2 * i + (init[i] ^ 1)), (int)(2 * i + init[i]) }); auto R = reach(2 * n, imp); bool sat = true; for (int i = 0; i < n; i++) if (R[2 * i][2 * i + 1] && R[2 * i + 1][2 * i]) sat = false;
    std::vector<int> sol = init; CHECK_EQ(sat2(sol, cl), sat); if (sat) { for (size_t i = 0; i < init.size(); i++) if (init[i] >= 0) CHECK_EQ(sol[i], init[i]); sol.resize(n, 0); CHECK(holds(cl, sol)); } c.nontrivial(m > n / 2 + 3); c.label("satisfiable", sat);
}
// long paths and cycles: no recursion, near-linear time
PROP(deep_digraphs, 220, 5500) {
    int n = (int)c.range(1, c.chance(1, 3) ? 300000 : 60000); int blk = c.coin() ? n : 1 + (int)c.below(c.coin() ? 5 : n); bool fwd = c.coin(); SHOW(n); SHOW(blk); SHOW(fwd); EL e; // blocks of consecutive nodes, each a cycle; consecutive blocks joined by one edge
    int nb = 0; std::vector<int> id(n); for (int b = 0; b < n; b += blk) { int f = std::min(n, b + blk); for (int i = b; i < f; i++) { id[i] = nb; if (f - b > 1) e.push_back({ i, i + 1 < f ? i + 1 : b }); } if (f < n) e.push_back({ f - 1, f }); nb++; } auto nm = [&](int i) { return fwd ? i : n - 1 - i; };
    graph<edge> g(n); for (auto& x : e) g.add_edge(nm(x.first), edge(nm(x.second))); auto s = tarjan_scc(g); CHECK_EQ((int)s.size(), nb); for (int i = 0; i < nb; i++) { CHECK_EQ((int)s[i].size(), std::min(n, (i + 1) * blk) - i * blk); std::vector<char> seen(s[i].size()); for (int u : s[i]) { int q = nm(u) - i * blk; CHECK_MSG(q >= 0 && q < (int)seen.size() && !seen[q], "node " << u << " in component " << i); seen[q] = 1; } }
    if (blk == 1) { auto t = topological_sort(g); CHECK_EQ((int)t.size(), n); for (int i = 0; i < n; i++) CHECK_EQ(nm(t[i]), i); } if (n > 5000) c.nontrivial(true);
}

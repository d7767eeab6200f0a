// C52: dinic_flow, push_relabel_flow, bipartite_matching, hungarian.
#include "graph_gen.h"
#include <queue>
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/hungarian.h"
using namespace altruct::graph;
template<typename T> using Mat = std::vector<std::vector<T>>;
template<typename T> static T minCut(const Mat<T>& cap, int s, int t) { // brute force over all cuts for n <= 10
    int n = (int)cap.size(); T best = -1; for (unsigned m = 0; m < 1u << n; m++) { if (!(m >> s & 1) || (m >> t & 1)) continue; T k = 0; for (int u = 0; u < n; u++) if (m >> u & 1) for (int v = 0; v < n; v++) if (!(m >> v & 1)) k += cap[u][v]; if (best < 0 || k < best) best = k; } return best; }
template<typename T> static Mat<T> genCap(pbt::Ctx& c, int n, bool loops, T big) { Mat<T> m(n, std::vector<T>(n)); for (auto& e : gen_digraph(c, n, loops, true)) m[e.first][e.second] = std::min<T>(big, m[e.first][e.second] + (c.chance(1, 10) ? 0 : c.chance(1, 8) ? big : (T)c.range(1, c.coin() ? 3 : 20))); return m; }
template<typename T> static void dinicOne(pbt::Ctx& c, T big, T inf) {
    int n = (int)c.range(2, 9); auto cap = genCap<T>(c, n, true, big); SHOW(cap); dinic_flow<T> d = inf ? dinic_flow<T>(cap, inf) : dinic_flow<T>(cap); int rounds = c.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < rounds; r++) { int s = (int)c.below(n), t = (int)c.below(n); SHOW(s); SHOW(t); T f = d.calc_max_flow(s, t); if (s == t) { CHECK_EQ(f, T(0)); continue; } CHECK_EQ(f, minCut(cap, s, t)); CHECK_EQ(d.flow.size(), (size_t)n);
        // the flow on the edges: 0 <= flow <= cap, conserved in every inner node, net value f
        for (int u = 0; u < n; u++) { T in = 0, out = 0; for (int v = 0; v < n; v++) { CHECK_MSG(d.flow[u][v] >= 0 && d.flow[u][v] <= cap[u][v], "flow " << d.flow[u][v] << " on " << u << "->" << v << " with capacity " << cap[u][v]); out += d.flow[u][v]; in += d.flow[v][u]; } CHECK_MSG(out - in == (u == s ? f : u == t ? -f : T(0)), "not conserved in " << u); }
        c.nontrivial(f > 0 && n > 4); }
}
PROP(dinic_int, 190000, 4750000) { dinicOne<int>(c, c.pick<int>({ 1, 5, 1000, 50000000 }), c.chance(1, 4) ? 1000000000 : 0); }
PROP(dinic_wide, 200000, 5000000) { dinicOne<int64_t>(c, c.pick<int64_t>({ 5, int64_t(1) << 40, int64_t(1) << 57 }), 0); }
template<typename T> static void prOne(pbt::Ctx& c, T big) {
    int n = (int)c.range(2, 9); auto cap = genCap<T>(c, n, true, big); SHOW(cap); push_relabel_flow<T> d(cap, c.coin() ? std::numeric_limits<T>::max() / 4 : big * 100); int rounds = c.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < rounds; r++) { int s = (int)c.below(n), t = (int)c.below(n), rule = (int)c.below(2); SHOW(s); SHOW(t); SHOW(rule); T f = rule == 0 && c.coin() ? d.calc_max_flow(s, t) : d.calc_max_flow(s, t, rule); if (s == t) { CHECK_EQ(f, T(0)); continue; } CHECK_EQ(f, minCut(cap, s, t));
        for (int u = 0; u < n; u++) { T net = 0; for (int v = 0; v < n; v++) { if (u != v) CHECK_MSG(d.flow[u][v] == -d.flow[v][u] && d.flow[u][v] <= cap[u][v], "flow " << d.flow[u][v] << " on " << u << "->" << v << " with capacity " << cap[u][v]); net += d.flow[u][v]; } CHECK_MSG(net == (u == s ? f : u == t ? -f : T(0)), "not conserved in " << u); }
        c.nontrivial(f > 0 && n > 4); }
}
PROP(push_relabel_int, 300000, 7500000) { prOne<int>(c, c.pick<int>({ 1, 5, 1000, 5000000 })); }
PROP(push_relabel_wide, 340000, 8500000) { prOne<int64_t>(c, c.pick<int64_t>({ 5, int64_t(1) << 40, int64_t(1) << 52 })); }
// larger networks: the two algorithms against each other
PROP(flows_agree, 24000, 600000) {
    int n = (int)c.range(8, 40); auto cap = genCap<int>(c, n, false, c.pick<int>({ 1, 3, 1000 })); int s = (int)c.below(n), t = (s + 1 + (int)c.below(n - 1)) % n; if (!c.chance(1, 3)) { for (int i = 0; i < 3; i++) cap[s][c.below(n)] += 5, cap[c.below(n)][t] += 5; } SHOW(n); SHOW(s); SHOW(t); c.show("cap", cap); dinic_flow<int> d(cap); push_relabel_flow<int> p(cap, 1000000); int f = d.calc_max_flow(s, t); CHECK_EQ(p.calc_max_flow(s, t, 0), f); CHECK_EQ(p.calc_max_flow(s, t, 1), f); c.nontrivial(f > 1);
    // a cut of the same capacity: nodes reachable in the residual network
    std::vector<char> in(n); std::queue<int> q; q.push(s); in[s] = 1; while (!q.empty()) { int u = q.front(); q.pop(); for (int v = 0; v < n; v++) if (!in[v] && (cap[u][v] > d.flow[u][v] || d.flow[v][u] > 0)) in[v] = 1, q.push(v); } CHECK(!in[t]); int64_t k = 0; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (in[u] && !in[v]) k += cap[u][v]; CHECK_EQ(k, (int64_t)f);
}
typedef weighted_full_edge<int> Wf;
PROP(matching, 130000, 3250000) {
    int lim = c.chance(1, 50) ? 40 : 8; int a = (int)c.range(0, lim), b = (int)c.range(0, lim), n = a + b; auto nm = c.permutation(n); EL e; int den = (int)c.pick<int>({ 2, 3, 5 }); for (int u = 0; u < a; u++) for (int v = 0; v < b; v++) if (c.chance(1, den)) e.push_back({ (int)nm[u], (int)nm[a + v] }); bool dup = e.size() && c.chance(1, 4); if (dup) for (int i = 0; i < 2; i++) e.push_back(e[c.below(e.size())]); shuffle_c(c, e); SHOW(n); SHOW(e);
    // maximum matching by augmenting paths
    std::vector<int> mt(n, -1); int best = 0; std::vector<char> vis; std::function<bool(int)> go = [&](int u) { for (auto& x : e) if (x.first == u && !vis[x.second]) { vis[x.second] = 1; if (mt[x.second] < 0 || go(mt[x.second])) { mt[x.second] = u; return true; } } return false; }; for (int u = 0; u < a; u++) { vis.assign(n, 0); best += go((int)nm[u]); }
    if (c.coin()) { std::vector<full_edge> fe; for (auto& x : e) fe.push_back({ x.first, x.second }); auto r = bipartite_matching(n, fe); std::set<int> used; for (auto& x : r) { CHECK_MSG(std::find(e.begin(), e.end(), E2(x.u, x.v)) != e.end(), "edge not given"); CHECK_MSG(used.insert(x.u).second && used.insert(x.v).second, "node matched twice by " << x.u << "-" << x.v); } CHECK_EQ((int)r.size(), best); }
    else { std::vector<Wf> fe; int k = 0; for (auto& x : e) fe.push_back({ x.first, x.second, k++ }); auto r = bipartite_matching(n, fe); std::set<int> used; for (auto& x : r) { CHECK_MSG(x.w >= 0 && x.w < k && e[x.w] == E2(x.u, x.v), "edge not given"); CHECK_MSG(used.insert(x.u).second && used.insert(x.v).second, "node matched twice by " << x.u << "-" << x.v); } CHECK_EQ((int)r.size(), best); }
    c.nontrivial(best > 2); c.label("duplicate edges", dup);
}
template<typename I> static void hung(pbt::Ctx& c, I big) {
    hungarian<I> h; int rounds = c.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < rounds; r++) { int n = (int)c.range(r ? 1 : 0, 7); h.resize(n); Mat<I> m(n, std::vector<I>(n)); int k = (int)c.below(4); for (auto& x : m) for (auto& y : x) y = k == 0 ? (I)c.range(0, 3) : k == 1 ? (I)c.range(-(int64_t)big, (int64_t)big) : k == 2 ? (I)c.range(0, 100) : (I)-(int64_t)c.range(0, 100); SHOW(m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h.cost(i, j) = m[i][j];
        std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; I lo = 0, hi = 0; bool first = true; do { I s = 0; for (int i = 0; i < n; i++) s += m[i][p[i]]; if (first || s < lo) lo = s; if (first || s > hi) hi = s; first = false; } while (std::next_permutation(p.begin(), p.end()));
        for (int pass = 0; pass < 2; pass++) { bool mx = c.coin(); I got = mx ? h.calc_max_cost() : h.calc_min_cost(); CHECK_EQ(got, mx ? hi : lo); auto& xy = h.get_matches_for_x(); auto& yx = h.get_matches_for_y(); CHECK(xy.size() >= (size_t)n && yx.size() >= (size_t)n); I s = 0; std::set<int> seen; for (int i = 0; i < n; i++) { CHECK(xy[i] >= 0 && xy[i] < n && seen.insert(xy[i]).second); CHECK_EQ(yx[xy[i]], i); s += m[i][xy[i]]; } CHECK_EQ(s, got); }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(h.cost(i, j), m[i][j]);
        c.nontrivial(n > 3 && lo < hi); }
}
PROP(hungarian_int, 180000, 4500000) { hung<int>(c, c.pick<int>({ 10, 100000, 100000000 })); }
PROP(hungarian_wide, 210000, 5250000) { if (c.coin()) hung<int64_t>(c, int64_t(1) << 55); else hung<double>(c, 1e6); }
// larger assignment: optimality by dual prices is not exposed, so compare with negation and transposition
PROP(hungarian_symmetry, 110000, 2750000) {
    int n = (int)c.range(1, 24); Mat<int> m(n, std::vector<int>(n)); int r = c.pick<int>({ 2, 20, 1000000 }); for (auto& x : m) for (auto& y : x) y = (int)c.range(-r, r); SHOW(m); hungarian<int> a, t, s; a.resize(n); t.resize(n); s.resize(n); auto p = c.permutation(n), q = c.permutation(n); int shift = 0; std::vector<int> rs(n); for (auto& x : rs) x = (int)c.range(-9, 9), shift += x;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.cost(i, j) = m[i][j], t.cost(j, i) = -m[i][j], s.cost((int)p[i], (int)q[j]) = m[i][j] + rs[i]; int hi = a.calc_max_cost(); CHECK_EQ(t.calc_min_cost(), -hi); CHECK_EQ(s.calc_max_cost(), hi + shift); c.nontrivial(n > 4);
    std::vector<int> y(n), id(n); for (int i = 0; i < n; i++) id[i] = i; for (int k = 0; k < 30; k++) { shuffle_c(c, id); int z = 0; for (int i = 0; i < n; i++) z += m[i][id[i]]; CHECK(z <= hi); }
}
// larger assignments against successive shortest augmenting paths (Bellman-Ford on the residual graph)
PROP(hungarian_large, 19000, 475000) {
    int n = (int)c.range(8, 40); Mat<int> m(n, std::vector<int>(n)); int r = c.pick<int>({ 1, 4, 50, 1000000 }), shape = (int)c.below(4); std::vector<int> ra(n), rb(n); for (auto& x : ra) x = (int)c.range(0, r); for (auto& x : rb) x = (int)c.range(0, r); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = shape == 0 ? (int)c.range(-r, r) : shape == 1 ? ra[i] + rb[j] + (c.chance(1, 8) ? -1 : 0) : shape == 2 ? (int)(((int64_t)ra[i] * rb[j]) % 1000003) : std::abs(ra[i] - rb[j]); SHOW(m);
    std::vector<int> mx(n, -1), my(n, -1); int64_t best = 0; for (int k = 0; k < n; k++) { const int64_t INF = int64_t(1) << 60; std::vector<int64_t> dx(n, INF), dy(n, INF); std::vector<int> py(n, -1); for (int i = 0; i < n; i++) if (mx[i] < 0) dx[i] = 0; bool ch = true; while (ch) { ch = false; for (int i = 0; i < n; i++) if (dx[i] < INF) for (int j = 0; j < n; j++) if (mx[i] != j && dx[i] + m[i][j] < dy[j]) { dy[j] = dx[i] + m[i][j]; py[j] = i; ch = true; } for (int j = 0; j < n; j++) if (my[j] >= 0 && dy[j] < INF && dy[j] - m[my[j]][j] < dx[my[j]]) { dx[my[j]] = dy[j] - m[my[j]][j]; ch = true; } } int e = -1; for (int j = 0; j < n; j++) if (my[j] < 0 && (e < 0 || dy[j] < dy[e])) e = j; best += dy[e]; for (int j = e; j >= 0;) { int i = py[j], nj = mx[i]; my[j] = i; mx[i] = j; j = nj; } }
    hungarian<int> h; h.resize(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h.cost(i, j) = m[i][j]; int got = h.calc_min_cost(); CHECK_EQ((int64_t)got, best); auto& xy = h.get_matches_for_x(); int64_t s = 0; std::set<int> seen; for (int i = 0; i < n; i++) { CHECK(xy[i] >= 0 && xy[i] < n && seen.insert(xy[i]).second); s += m[i][xy[i]]; } CHECK_EQ(s, best); c.nontrivial(n > 12);
}

// C56: chromatic_polynomial counts proper colourings.
#include "graph_gen.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
using namespace altruct::graph; using altruct::math::polynom;
// number of proper colourings with k colours, by colour class partitions: sum over partitions into j independent classes of k(k-1)...(k-j+1)
static std::vector<int64_t> classes(int n, const EL& e) { std::vector<std::vector<char>> a(n, std::vector<char>(n)); for (auto& x : e) a[x.first][x.second] = a[x.second][x.first] = 1; std::vector<int64_t> cnt(n + 1); std::vector<int> col(n); std::function<void(int, int)> go = [&](int u, int used) { if (u == n) { cnt[used]++; return; } for (int k = 0; k <= used; k++) { bool ok = true; for (int v = 0; v < u; v++) if (a[u][v] && col[v] == k) ok = false; if (ok) { col[u] = k; go(u + 1, std::max(used, k + 1)); } } }; go(0, 0); return cnt; }
static int64_t colourings(const std::vector<int64_t>& cl, int64_t k) { int64_t r = 0, f = 1; for (size_t j = 0; j < cl.size(); j++) { r += cl[j] * f; f *= k - (int64_t)j; } return r; }
template<typename I> static int64_t at(const polynom<I>& p, int64_t x) { int64_t r = 0; for (int i = p.deg(); i >= 0; i--) r = r * x + (int64_t)p[i]; return r; }
PROP(colouring_counts, 220000, 5500000) {
    int n = (int)c.range(0, c.chance(1, 8) ? 8 : 7); EL e = gen_simple(c, n); SHOW(n); SHOW(e); graph<edge> g(n); for (auto& x : e) g.add_edge2(x.first, edge(x.second)); auto before = g; auto cl = classes(n, e); auto p = chromatic_polynomial<int64_t>(g); CHECK(g == before); CHECK_EQ(p.deg(), n); CHECK_EQ(p[n], (int64_t)1); if (n >= 1) CHECK_EQ(p[n - 1], -(int64_t)e.size()); for (int k = 0; k <= n + 1; k++) CHECK_MSG(at(p, k) == colourings(cl, k), "P(" << k << ") = " << at(p, k) << ", proper colourings: " << colourings(cl, k)); c.nontrivial((int)e.size() >= n && n > 4);
    typedef altruct::math::modulo<int, 1000000007> mod; auto pm = chromatic_polynomial<mod>(g); for (int i = 0; i <= n; i++) CHECK_EQ((int64_t)pm[i].v, ((p[i] % 1000000007) + 1000000007) % 1000000007);
    typedef altruct::math::moduloX<int> modX; int M = c.coin() ? 1009 : (int)c.range(2, 40); SHOW(M); auto px = chromatic_polynomial<modX>(g, modX(1, M)); CHECK_EQ((int)px.c.size() - 1 >= n, true); for (int i = 0; i <= n; i++) { CHECK_EQ(px[i].M(), M); CHECK_EQ((int64_t)px[i].v, ((p[i] % M) + M) % M); }
}
PROP(closed_forms, 170000, 4250000) {
    int n = (int)c.range(1, 7); SHOW(n); c.nontrivial(n > 3); EL t, k, cy; auto pr = gen_parents(c, n, false); for (int i = 1; i < n; i++) t.push_back({ i, pr[i] }); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) k.push_back({ i, j }); for (int i = 0; i < n; i++) cy.push_back({ i, (i + 1) % n }); auto P = [&](const polynom<int64_t>& p, const EL& e) { auto cl = classes(n, e); for (int x = 0; x <= n + 1; x++) CHECK_EQ(at(p, x), colourings(cl, x)); }; P(chromatic_polynomial_T<int64_t>(n), t); P(chromatic_polynomial_K<int64_t>(n), k); if (n >= 2) P(chromatic_polynomial_C<int64_t>(n), cy); 
    auto mk = [&](const EL& e) { graph<edge> g(n); for (auto& x : e) g.add_edge2(x.first, edge(x.second)); return g; }; CHECK_EQ(chromatic_polynomial<int64_t>(mk(t)).c, chromatic_polynomial_T<int64_t>(n).c); CHECK_EQ(chromatic_polynomial<int64_t>(mk(k)).c, chromatic_polynomial_K<int64_t>(n).c); if (n >= 3) CHECK_EQ(chromatic_polynomial<int64_t>(mk(cy)).c, chromatic_polynomial_C<int64_t>(n).c);
    typedef altruct::math::moduloX<int> modX; int M = (int)c.range(2, 1000); SHOW(M); auto X = [&](const polynom<modX>& px, const polynom<int64_t>& p) { CHECK(px.deg() == n); for (int i = 0; i <= n; i++) { CHECK_EQ(px[i].M(), M); CHECK_EQ((int64_t)px[i].v, ((p[i] % M) + M) % M); } }; modX id(1, M); X(chromatic_polynomial_T<modX>(n, id), chromatic_polynomial_T<int64_t>(n)); X(chromatic_polynomial_K<modX>(n, id), chromatic_polynomial_K<int64_t>(n)); if (n >= 2) X(chromatic_polynomial_C<modX>(n, id), chromatic_polynomial_C<int64_t>(n));
}

// C34: link_cut_tree against a forest of parent pointers.
#include "pbt.h"
#include "altruct/structure/container/link_cut_tree.h"
using namespace altruct::container;
// affine maps modulo 251: a non-commutative aggregate along the path
struct Af { int a, b; Af(int a = 1, int b = 0) : a(a), b(b) {} bool operator==(const Af& o) const { return a == o.a && b == o.b; } };
static Af mul(const Af& f, const Af& g) { return Af(f.a * g.a % 251, (f.a * g.b + f.b) % 251); }
static int live = 0;
struct Nd { Af x, agg; Nd(Af x = Af()) : x(x), agg(x) { live++; } Nd(const Nd& o) : x(o.x), agg(o.agg) { live++; } Nd& operator=(const Nd&) = default; ~Nd() { live--; } };
static void f_up(Nd& p, const Nd& l, const Nd& r) { p.agg = mul(mul(l.agg, p.x), r.agg); }
PROP(forest_history, 1000000, 25000000) {
    live = 0; { typedef link_cut_tree<Nd> T; int kind = (int)c.below(3); std::vector<int> par{ 0 }; std::vector<Af> val{ Af() }; auto rv = [&] { return Af((int)c.range(1, 250), (int)c.range(0, 250)); }; int n0 = (int)c.range(0, 12); std::unique_ptr<T> tp; SHOW(kind); SHOW(n0);
    if (kind == 0) tp.reset(new T(f_up)); else if (kind == 1) { tp.reset(new T((size_t)n0, f_up)); for (int i = 0; i < n0; i++) par.push_back(0), val.push_back(Af()); } else { std::vector<Nd> v; for (int i = 0; i < n0; i++) { v.push_back(Nd(rv())); par.push_back(0); val.push_back(v.back().x); } tp.reset(new T(v.begin(), v.end(), f_up)); } T& t = *tp;
    auto root = [&](int u) { while (par[u]) u = par[u]; return u; }; auto depth = [&](int u) { int d = 0; while (par[u]) u = par[u], d++; return d; }; auto anc = [&](int u, int k) { while (k--) u = par[u]; return u; };
    auto path = [&](int u) { Af r; for (; u; u = par[u]) r = mul(val[u], r); return r; };
    auto check = [&](int u) { int w = (int)c.below(6); c.show("query", w); c.show("of", u); switch (w) { case 0: CHECK_EQ(t.find_root(u), root(u)); break; case 1: CHECK_EQ(t.find_parent(u), par[u]); break; case 2: CHECK_EQ(t.depth(u), depth(u)); break; case 3: { const Nd& g = t.get(u); Af e = path(u); CHECK_MSG(g.agg == e, "path aggregate of " << u << " is " << g.agg.a << "," << g.agg.b << ", expected " << e.a << "," << e.b); break; }
        case 4: { int v = (int)c.range(1, (int)par.size() - 1); c.show("and", v); int e = 0; if (root(u) == root(v)) { int a = u, b = v, da = depth(a), db = depth(b); while (da > db) a = par[a], da--; while (db > da) b = par[b], db--; while (a != b) a = par[a], b = par[b]; e = a; } CHECK_EQ(t.find_lca(u, v), e); break; }
        case 5: { int d = depth(u), k = (int)c.range(0, d); int r = t.traverse(u, [&](const Nd& x, const Nd&, const Nd&, int dep) { int w = anc(u, d - dep); CHECK_MSG(dep >= 0 && dep <= d && x.x == val[w], "traverse shows another node at depth " << dep); return k < dep ? -1 : k > dep ? 1 : 0; }); CHECK_MSG(r == anc(u, d - k), "the ancestor at depth " << k << " of " << u << " is " << r << ", expected " << anc(u, d - k)); break; } } };
    size_t steps = c.chance(1, 25) ? c.range(100, 500) : c.range(0, 60); bool cuts = false, deep = false; int shape = (int)c.below(3);
    for (size_t s = 0; s < steps; s++) { int n = (int)par.size() - 1; CHECK_EQ(t.size(), n); int op = (int)c.weighted({ 3, 10, 4, 14, 2 }); if (!n) op = 0; if (op == 0 && n >= 40) op = 3;
        switch (op) {
        case 0: { Af v = rv(); int i = t.add(Nd(v)); CHECK_EQ(i, n + 1); par.push_back(0); val.push_back(v); break; }
        case 1: { int u = (int)c.range(1, n); u = root(u); int v = (int)c.range(1, n); if (root(v) == u) break; if (shape == 1) { /* prefer deep trees */ for (int w = 1; w <= n; w++) if (root(w) == root(v) && depth(w) > depth(v)) v = w; } c.show("link", u); c.show("below", v); t.link(u, v); par[u] = v; deep |= depth(u) > 2; break; }
        case 2: { int u = (int)c.range(1, n); c.show("cut", u); cuts |= par[u] != 0; t.cut(u); par[u] = 0; break; }
        case 3: check((int)c.range(1, n)); break;
        case 4: { int u = (int)c.range(1, n); Af v = rv(); c.show("set", u); t.get(u).x = v; val[u] = v; break; } } }
    for (int u = 1; u < (int)par.size(); u++) { CHECK_EQ(t.find_parent(u), par[u]); CHECK_EQ(t.depth(u), depth(u)); CHECK_EQ(t.find_root(u), root(u)); CHECK(t.get(u).agg == path(u)); }
    c.nontrivial(cuts && deep); c.label("cuts", cuts); c.label("deep", deep); } CHECK_MSG(live == 0, live << " values are never destroyed");
}
PROP(long_paths, 4300, 107500) { // paths of thousands of nodes: logarithmic amortized cost, or this does not end in time
    int n = (int)c.range(2000, 20000); SHOW(n); typedef link_cut_tree<Nd> T; T t((size_t)n, f_up); bool up = c.coin(); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i + 1; if (c.coin()) { auto p = c.permutation(n); for (int i = 0; i < n; i++) ord[i] = (int)p[i] + 1; } if (up) for (int i = 1; i < n; i++) t.link(ord[i], ord[i - 1]); else for (int i = n - 1; i > 0; i--) t.link(ord[i], ord[i - 1]);
    c.nontrivial(true); int cut = -1; for (int k = 0; k < 300; k++) { int i = (int)c.range(0, n - 1), j = (int)c.range(0, n - 1); int base = i >= cut && cut >= 0 ? cut : 0; CHECK_EQ(t.depth(ord[i]), i - base); CHECK_EQ(t.find_root(ord[i]), ord[base]); int bj = j >= cut && cut >= 0 ? cut : 0; CHECK_EQ(t.find_lca(ord[i], ord[j]), base == bj ? ord[std::min(i, j)] : 0); CHECK_EQ(t.find_parent(ord[i]), i > base ? ord[i - 1] : 0); if (cut < 0 && k == 150) { cut = (int)c.range(1, n - 1); t.cut(ord[cut]); } }
}

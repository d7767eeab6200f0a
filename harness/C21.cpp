// C21: permutations as bijections on lines, against plain vectors; roots against exhaustive search.
#include "pbt.h"
#include "altruct/structure/math/permutation.h"
using namespace altruct::math;
typedef std::vector<int> line;
static line ident(int n) { line l(n); for (int i = 0; i < n; i++) l[i] = i; return l; }
static line ext(line l, int n) { for (int i = (int)l.size(); i < n; i++) l.push_back(i); return l; }
// (a after b) as functions: x -> a[b[x]]
static line after(line a, line b) { int n = (int)std::max(a.size(), b.size()); a = ext(a, n); b = ext(b, n); line r(n); for (int i = 0; i < n; i++) r[i] = a[b[i]]; return r; }
static line inverse(const line& a) { line r(a.size()); for (size_t i = 0; i < a.size(); i++) r[a[i]] = (int)i; return r; }
static std::vector<line> cycles(const line& a, bool ones) { std::vector<line> v; std::vector<char> u(a.size()); for (size_t i = 0; i < a.size(); i++) if (!u[i]) { line cy; for (int j = (int)i; !u[j]; j = a[j]) u[j] = 1, cy.push_back(j); if (ones || cy.size() > 1) v.push_back(cy); } return v; }
static line power(const line& a, int64_t T) { line r(a.size()); for (auto& cy : cycles(a, true)) { int64_t L = cy.size(), t = ((T % L) + L) % L; for (int64_t i = 0; i < L; i++) r[cy[i]] = cy[(i + t) % L]; } return r; }
static int swaps(const line& a) { return (int)a.size() - (int)cycles(a, true).size(); }
static line gen(pbt::Ctx& c, int n) {
    int k = (int)c.weighted({ 4, 4, 1, 1 }); line l = ident(n);
    if (k == 0) { auto p = c.permutation(n); for (int i = 0; i < n; i++) l[i] = (int)p[i]; }
    else if (k == 1) { auto p = c.permutation(n); int i = 0; int len = (int)c.range(1, std::max(1, n)); while (i < n) { int m = c.coin() ? len : (int)c.range(1, std::max(1, n / 2)); m = std::min(m, n - i); for (int j = 0; j < m; j++) l[p[i + j]] = (int)p[i + (j + 1) % m]; i += m; } }
    else if (k == 2 && n > 1) { for (int i = 0, m = (int)c.range(0, 3); i < m; i++) std::swap(l[c.below(n)], l[c.below(n)]); }
    return l;
}
template<typename I> static permutation<I> make(pbt::Ctx& c, const line& l) {
    typedef permutation<I> P; I n = (I)l.size();
    switch (c.below(4)) {
    case 0: return P(typename P::line_t(l.begin(), l.end()));
    case 1: { typename P::cycles_t v; for (auto& cy : cycles(l, c.coin())) { std::rotate(cy.begin(), cy.begin() + c.below(cy.size()), cy.end()); v.insert(v.begin() + c.below(v.size() + 1), typename P::cycle_t(cy.begin(), cy.end())); } return P(v, n); }
    case 2: { typename P::transpositions_t t; line r = l; for (int i = 0; i < (int)r.size(); i++) while (r[i] != i) { int j = r[i]; t.push_back({ (I)i, (I)j }); std::swap(r[i], r[j]); } std::reverse(t.begin(), t.end()); if (c.coin()) for (auto& x : t) if (c.coin()) std::swap(x.first, x.second); return P(t, n); }
    default: { P p(typename P::line_t(l.begin(), l.end())); return p; }
    }
}
template<typename P> static line L(const P& p) { auto l = p.to_line(); return line(l.begin(), l.end()); }
#define WF(p, N) do { CHECK_EQ((int)(p).n, (int)(N)); CHECK_EQ((int)L(p).size(), (int)(N)); std::vector<char> u_(N); for (auto& cy_ : (p).cycles) { for (auto x_ : cy_) { CHECK((int)x_ >= 0 && (int)x_ < (int)(N) && !u_[x_]); u_[x_] = 1; } } } while (0)
template<typename I> static void group(pbt::Ctx& c) {
    typedef permutation<I> P; int n1 = (int)c.size_mostly(0, 12, 300, 150), n2 = c.coin() ? n1 : (int)c.size_mostly(0, 12, 300, 150), N = std::max(n1, n2); line a = gen(c, n1), b = gen(c, n2); SHOW(a); SHOW(b);
    P p = make<I>(c, a), q = make<I>(c, b); WF(p, n1); CHECK_EQ(L(p), a); CHECK_EQ(L(q), b);
    // representations
    { auto ac = p.to_all_cycles(); std::vector<char> u(n1); int cnt = 0; for (auto& cy : ac) { CHECK(!cy.empty()); for (size_t i = 0; i < cy.size(); i++) { CHECK(!u[cy[i]]); u[cy[i]] = 1; cnt++; CHECK_EQ((int)cy[(i + 1) % cy.size()], a[cy[i]]); } } CHECK_EQ(cnt, n1); CHECK_EQ(p.to_cycles(), p.cycles);
      auto t = p.to_transpositions(); CHECK_EQ((int)t.size(), swaps(a)); CHECK_EQ(L(P(t, (I)n1)), a); typename P::line_t la(a.begin(), a.end()); CHECK_EQ((int)P::line_to_transpositions(la).size(), swaps(a)); CHECK_EQ(P::transpositions_to_line(P::line_to_transpositions(la), (I)n1), la);
      auto lc = P::line_to_cycles(la); std::vector<line> lci; for (auto& x : lc) lci.push_back(line(x.begin(), x.end())); CHECK_EQ(lci, cycles(a, false)); CHECK_EQ(P::cycles_to_line(lc, (I)n1), la); CHECK_EQ(P::transpositions_to_cycles(t), lc); int used = 0; for (int i = 0; i < n1; i++) if (a[i] != i) used = i + 1; CHECK_EQ((int)P::size(lc), used); CHECK_EQ((int)P::size(t), used); int ext_n = n1 + (int)c.below(4); auto le = P::cycles_to_line(lc, (I)ext_n); CHECK_EQ(line(le.begin(), le.end()), ext(a, ext_n)); le = P::transpositions_to_line(t, (I)ext_n); CHECK_EQ(line(le.begin(), le.end()), ext(a, ext_n)); le = la; CHECK_EQ(&P::expand_line(le, (I)ext_n), &le); CHECK_EQ(line(le.begin(), le.end()), ext(a, ext_n)); }
    // the action on a line puts at x what was at p(x); the product acts like its factors, the right one first
    { int m = c.coin() ? N : N + (int)c.below(4); line w(m); for (auto& x : w) x = (int)c.below(100); SHOW(w); typename P::line_t x(w.begin(), w.end()), y = x; CHECK_EQ(&q.apply_to(x), &x); line e(w.size()); for (int i = 0; i < m; i++) e[i] = w[i < n2 ? b[i] : i]; CHECK_EQ(line(x.begin(), x.end()), e); p.apply_to(x); P pq = p * q; WF(pq, N); pq.apply_to(y); CHECK_EQ(x, y); CHECK_EQ(L(pq), after(b, a)); P r = p; r *= q; CHECK(r == pq); CHECK_EQ(L(q.inv() * p.inv()), L(pq.inv())); CHECK_EQ(L(p / q), after(inverse(b), a)); r = p; r /= q; CHECK(r == p / q); r = p; r *= r; CHECK_EQ(L(r), after(a, a)); r = p; r /= r; CHECK_EQ(L(r), ident(n1)); CHECK_EQ(r.cycles.size(), (size_t)0);
      line d = gen(c, (int)c.range(0, 12)); P s = make<I>(c, d); CHECK((p * q) * s == p * (q * s)); P e1 = identityT<P>::of(p), e0; CHECK_EQ((int)e1.n, n1); CHECK_EQ(L(e1), ident(n1)); CHECK_EQ(L(p * e1), a); CHECK_EQ(L(e1 * p), a); CHECK_EQ(L(p * e0), a); CHECK_EQ(L(e0 * p), a); }
    P iv = p.inv(); WF(iv, n1); CHECK_EQ(L(iv), inverse(a)); CHECK_EQ(L(p), a);
    int64_t T = c.chance(1, 3) ? c.any<int64_t>() : c.range(-30, 30); SHOW(T); P pw = p.pow(T); WF(pw, n1); CHECK_EQ(L(pw), power(a, T)); for (auto& cy : pw.cycles) CHECK(cy.size() > 1);
    bool lt = n1 != n2 ? n1 < n2 : p.cycles < q.cycles, eq = n1 == n2 && p.cycles == q.cycles; CHECK_EQ(p == q, eq); CHECK_EQ(p != q, !eq); CHECK_EQ(p < q, lt); CHECK_EQ(p > q, !lt && !eq); CHECK_EQ(p <= q, lt || eq); CHECK_EQ(p >= q, !lt); P z(typename P::line_t(a.begin(), a.end())), z2(typename P::line_t(b.begin(), b.end())); CHECK_EQ(z == z2, a == b);
    c.nontrivial(swaps(a) > 1 && swaps(b) > 1); c.label("different sizes", n1 != n2); c.label("huge exponent", T > 1000000000 || T < -1000000000);
}
PROP(group_laws, 45000, 1125000) { switch (c.below(3)) { case 0: group<int>(c); break; case 1: group<int64_t>(c); break; default: group<uint32_t>(c); } }
template<typename I> static void check_root(pbt::Ctx& c, const line& a, int64_t T, int parity, bool exists, int best) {
    typedef permutation<I> P; P p = make<I>(c, a), r = p.root(T, parity); int n = (int)a.size();
    if (!exists) { CHECK_EQ((int)r.n, 0); CHECK_EQ(r.cycles.size(), (size_t)0); return; }
    CHECK_EQ((int)r.n, n); WF(r, n); CHECK_EQ(power(L(r), T), a); CHECK_EQ(L(r.pow(T)), a); int s = swaps(L(r)); if (parity >= 0) CHECK_EQ(s % 2, parity); if (best >= 0) CHECK_MSG(s == best, "the root takes " << s << " transpositions, " << best << " suffice");
}
// all roots of small permutations by exhaustive search
PROP(roots_exhaustive, 3500, 87500) {
    int n = (int)c.range(0, 7); line a = gen(c, n); int64_t T = c.chance(1, 6) ? std::max<int64_t>(1, c.any<int64_t>() & INT64_MAX) : c.range(1, 24); SHOW(T);
    if (c.coin()) a = power(a, T); SHOW(a);
    int best[2] = { -1, -1 }; line q = ident(n); do { if (power(q, T) == a) { int s = swaps(q), k = s % 2; if (best[k] < 0 || s < best[k]) best[k] = s; } } while (std::next_permutation(q.begin(), q.end()));
    int any = best[0] < 0 ? best[1] : best[1] < 0 ? best[0] : std::min(best[0], best[1]);
    if (c.coin()) for (int par = -1; par < 2; par++) check_root<int>(c, a, T, par, par < 0 ? any >= 0 : best[par] >= 0, par < 0 ? any : best[par]);
    else for (int par = -1; par < 2; par++) check_root<int64_t>(c, a, T, par, par < 0 ? any >= 0 : best[par] >= 0, par < 0 ? any : best[par]);
    c.nontrivial(swaps(a) > 1 && T > 1); c.label("no root", any < 0); c.label("one parity only", any >= 0 && (best[0] < 0) != (best[1] < 0));
}
// larger ones are built from their root
PROP(roots_large, 33000, 825000) {
    int n = (int)c.range(1, 60); line q = gen(c, n); int64_t T = c.chance(1, 8) ? std::max<int64_t>(1, c.any<int64_t>() & INT64_MAX) : c.chance(1, 2) ? c.pick<int64_t>({ 2, 3, 4, 6, 8, 9, 12, 14, 30, 36, 60 }) : c.range(1, 100); SHOW(q); SHOW(T); line a = power(q, T); int s = swaps(q) % 2;
    check_root<int>(c, a, T, -1, true, -1); check_root<int>(c, a, T, s, true, -1); permutation<int> p = make<int>(c, a), o = p.root(T, 1 - s); if (o.n) check_root<int>(c, a, T, 1 - s, true, -1); CHECK_MSG(swaps(L(p.root(T))) <= swaps(q), "the optimal root takes more transpositions than the one it was built from"); c.nontrivial(swaps(a) > 2 && T > 1);
}

// C18: Pell equations, Pythagorean/Eisenstein triples, sums of two squares.
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/modulos.h"
#include "altruct/algorithm/math/squares_r.h"
#include "ref.h"
#include "tables.h"
#include <set>
#include <map>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64; typedef std::pair<i64, i64> P2; typedef triple<i64> T3; typedef std::vector<std::pair<i64, int>> VF;
static VF fac(i64 n) { VF f; n = std::abs(n); for (i64 p = 2; p * p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; f.push_back({ p, e }); } if (n > 1) f.push_back({ n, 1 }); return f; }
// x^2 - D y^2 = 1 by search over y
static bool unit(i64 D, i64& x, i64& y, i64 ym) { for (y = 1; y <= ym; y++) { i64 t = D * y * y + 1; x = ref::isqrt(t); if (x * x == t) return true; } return false; }
static i64 nonsquare(Ctx& c, i64 lo, i64 hi) { i64 D = c.range(lo, hi); i64 r = ref::isqrt(D); if (r * r == D) D++; return D; }
PROP(pell_fundamental_solutions, 92000, 2300000) {
    i64 D = nonsquare(c, 2, c.coin() ? 60 : 1500); SHOW(D); i64 r = ref::isqrt(D); std::vector<i64> P{ 0 }, Q{ 1 }, a, A, B, G; // period of the continued fraction of sqrt(D)
    int per = 0; { i64 m = 0, d = 1, q = r; do { m = d * q - m; d = (D - m * m) / d; q = (r + m) / d; per++; } while (q != 2 * r); } if (per > 24) throw pbt::Discard(); c.nontrivial(per > 1);
    typedef __int128 I; I x, y; for (int N : { 1, -1 }) { x = y = -7; int l = pell1<I>(D, N, x, y); bool ex = N == 1 || per % 2; CHECK_EQ(l, ex ? per : 0); if (!ex) continue; CHECK_MSG(x * x - (I)D * y * y == N, "x^2 - D y^2 != N for N = " << N); CHECK(x > 0 && y > 0); for (i64 t = 1; t < std::min<I>(y, 3000); t++) { i64 s = D * t * t + N, q = ref::isqrt(s); CHECK_MSG(q * q != s, "smaller solution " << q << ", " << t << " for N = " << N); } if (y < 3000 && x < 1000000) { i64 x64, y64; CHECK_EQ(pell1<i64>(D, N, x64, y64), per); CHECK(x64 == x && y64 == y); } }
    // the expansion of (P0 + sqrt D)/Q0 itself
    i64 Q0 = c.range(1, 30), P0 = c.range(-40, 40); if (c.chance(1, 3)) Q0 = -Q0; if ((P0 * P0 - D) % Q0) Q0 = 1; SHOW(P0); SHOW(Q0); std::vector<I> p{ P0 }, q{ Q0 }, va, vA, vB, vG; int l = pell_PQa<I>(D, p, q, va, vA, vB, vG); size_t n = va.size(); CHECK_EQ(p.size(), n + 1); CHECK_EQ(q.size(), n + 1); CHECK_EQ(vA.size(), n); CHECK_EQ(vG.size(), n);
    I a1 = 1, a2 = 0, b1 = 0, b2 = 1; for (size_t i = 0; i < n; i++) { // a_i = floor((P_i + sqrt D)/Q_i), exactly
        I fl = va[i] * q[i] - p[i], gl = (va[i] + 1) * q[i] - p[i]; auto le = [&](I t) { return t < 0 || t * t < D; }; /* t < sqrt D */ bool ok = q[i] > 0 ? le(fl) && !le(gl) : !le(fl) && le(gl); CHECK_MSG(ok, "term " << i << " is not the floor"); I x = va[i] * a1 + a2, y = va[i] * b1 + b2; CHECK_MSG(vA[i] == x && vB[i] == y, "convergent " << i); a2 = a1; a1 = x; b2 = b1; b1 = y; CHECK_MSG(vG[i] == Q0 * x - P0 * y, "G term " << i); CHECK_MSG(vG[i] * vG[i] - D * y * y == (i % 2 ? 1 : -1) * q[i + 1] * Q0, "identity for G at " << i); CHECK_MSG((D - p[i + 1] * p[i + 1]) == q[i + 1] * q[i], "PQ recurrence"); }
    bool rep = false; for (size_t i = 0; i + l <= n; i++) rep |= p[i] == p[i + l] && q[i] == q[i + l]; CHECK_MSG(rep, "no period of length " << l); for (size_t i = 0; i <= n; i++) for (size_t j = i + 1; j <= n && (int)(j - i) < l; j++) CHECK_MSG(!(p[i] == p[j] && q[i] == q[j]), "a period of length " << j - i << " instead of " << l);
}
PROP(pell_general, 9200, 230000) {
    i64 D = nonsquare(c, 2, c.coin() ? 40 : 120), u, v; if (!unit(D, u, v, 300)) throw pbt::Discard(); i64 N = c.range(1, c.coin() ? 30 : 150); if (c.coin()) N = -N; if (c.chance(1, 4)) { i64 y = c.range(0, 5), x = c.range(0, 12), k = c.range(1, 3); N = (x * x - D * y * y) * k * k; if (!N) N = 1; } else if (c.chance(1, 3)) N = c.range(1, c.chance(1, 3) ? 1 : ref::isqrt(D)) * (N < 0 ? -1 : 1); SHOW(D); SHOW(N); i64 ub = 40000; c.nontrivial(std::abs(N) > 1); auto f = fac(N);
    std::vector<P2> sol; for (i64 y = 0; y <= (ub + 200) / ref::isqrt(D); y++) { i64 t = D * y * y + N; if (t < 0) continue; i64 x = ref::isqrt(t); if (x * x == t && x <= ub) sol.push_back({ x, y }); } c.label("solvable", !sol.empty());
    auto equiv = [&](i128 x, i128 y, i128 s, i128 t) { return (x * s - D * y * t) % N == 0 && (x * t - y * s) % N == 0; };
    auto vs = pell<i64>(D, N, f); for (size_t i = 0; i < vs.size(); i++) { i128 x = vs[i].a, y = vs[i].b; CHECK_MSG(x * x - D * y * y == N, "class representative " << vs[i].a << ", " << vs[i].b << " is no solution"); CHECK_EQ((i64)vs[i].D(), D); for (size_t j = 0; j < i; j++) CHECK_MSG(!equiv(x, y, vs[j].a, vs[j].b), "representatives " << i << " and " << j << " are equivalent"); }
    for (auto& s : sol) for (int sg : { 1, -1 }) { int k = 0; for (auto& t : vs) k += equiv(s.first, sg * s.second, t.a, t.b); CHECK_MSG(k == 1, "solution " << s.first << ", " << sg * s.second << " belongs to " << k << " of the classes"); }
    // all solutions up to limits
    i64 xm = c.coin() ? c.range(1, 200) : c.range(1, ub / 2), ym = c.coin() ? 0 : c.range(1, ub / 8); if (c.chance(1, 4)) ym = c.range(1, 60), xm = 0; SHOW(xm); SHOW(ym); std::set<P2> e; for (auto& s : sol) if ((!xm || s.first <= xm) && (!ym || s.second <= ym)) e.insert(s); if (!xm) for (i64 y = 0; y <= ym; y++) { i64 t = D * y * y + N; if (t < 0) continue; i64 x = ref::isqrt(t); if (x * x == t) e.insert({ x, y }); }
    auto w = pell<i64>(D, N, f, xm, ym, 0); std::vector<P2> g; for (auto& s : w) { P2 t(s.a, s.b); if (t.first && t.second) g.push_back(t); else CHECK_MSG(e.count(t), "not a solution: " << s.a << ", " << s.b); } std::sort(g.begin(), g.end()); std::vector<P2> ep; for (auto& t : e) if (t.first && t.second) ep.push_back(t); /* a zero coordinate may be left out */ CHECK_EQ(g, ep);
    if (N == 1 || N == -1) { auto w1 = pell1<i64>(D, N, xm, ym, 0); std::vector<P2> h; for (auto& s : w1) h.push_back({ s.a, s.b }); std::vector<P2> e1; for (auto& s : e) if (s.second > 0) e1.push_back(s); CHECK_EQ(h, e1); size_t k = c.range(1, 3); auto w2 = pell1<i64>(D, N, xm, ym, (int)k); CHECK_EQ(w2.size(), std::min(k, e1.size())); for (size_t i = 0; i < w2.size(); i++) CHECK(w2[i].a == e1[i].first && w2[i].b == e1[i].second); }
    if (N * N > 1 && N * N < D) { std::vector<i64> X, Y; pellS<i64>(D, N, X, Y); std::set<P2> got; for (size_t i = 0; i < X.size(); i++) { i128 x = X[i], y = Y[i]; CHECK_MSG(x * x - D * y * y == N, "pellS: " << X[i] << ", " << Y[i]); for (size_t j = 0; j < i; j++) CHECK_MSG(X[i] != X[j] || Y[i] != Y[j], "pellS lists a solution twice"); while (x <= ub) { CHECK_MSG(got.insert({ (i64)x, (i64)y }).second, "two minimal solutions of one class"); i128 t = x * u + D * y * v; y = x * v + y * u; x = t; } } std::set<P2> all; for (auto& s : sol) if (s.second > 0 && s.first > 0) all.insert(s); CHECK_EQ(got, all); c.label("pellS"); }
}
template<typename V> static std::vector<std::vector<i64>> norm(const V& v) { std::vector<std::vector<i64>> r; for (auto& t : v) r.push_back({ (i64)t.a, (i64)t.b, (i64)t.c }); std::sort(r.begin(), r.end()); return r; }
static i64 g3(i64 a, i64 b, i64 d) { auto g = [](i64 x, i64 y) { while (y) { i64 t = x % y; x = y; y = t; } return x; }; return g(g(a, b), d); }
PROP(triangles_with_fixed_angle, 10000, 250000) {
    i64 n = c.range(1, c.coin() ? 40 : 160); bool prim = c.coin(); SHOW(n); SHOW(prim); c.nontrivial(n > 10); std::vector<std::vector<i64>> e0, e1, e2, e3; for (i64 a = 1; a <= n; a++) for (i64 b = a; b <= n; b++) { i64 s = a * a + b * b, x = ref::isqrt(s); if (x * x == s && x <= n && (!prim || g3(a, b, x) == 1)) e0.push_back({ a, b, x }); s += a * b; x = ref::isqrt(s); if (x * x == s && x <= n && (!prim || g3(a, b, x) == 1)) e2.push_back({ a, b, x }); s = a * a - a * b + b * b; x = ref::isqrt(s); if (x * x == s && (!prim || g3(a, b, x) == 1)) e1.push_back({ a, x, b }); }
    for (i64 a = 1; a <= n; a++) for (i64 b = 1; b <= n; b++) { i64 s = a * a + b * b - 1, x = ref::isqrt(s); if (x * x == s && x <= n) e3.push_back({ a, b, x }); }
    CHECK_EQ(norm(pythagorean_triples<i64>(n, prim)), e0); std::sort(e1.begin(), e1.end()); std::sort(e2.begin(), e2.end()); CHECK_EQ(norm(eisenstein_triples120<i64>(n, prim)), e2); CHECK_EQ(norm(eisenstein_triples60<i64>(n, prim)), e1); CHECK_EQ(norm(almost_pythagorean_triples<i64>(n)), e3); CHECK_EQ(norm(pythagorean_triples<int>((int)n, prim)), e0); CHECK_EQ(norm(eisenstein_triples120<int>((int)n, prim)), e2); CHECK_EQ(norm(eisenstein_triples60<int>((int)n, prim)), e1);
    i64 leg = c.range(1, 3000); SHOW(leg); std::vector<std::vector<i64>> el; for (i64 d = 1; d * d < leg * leg; d++) if (leg * leg % d == 0 && (leg * leg / d - d) % 2 == 0) el.push_back({ leg, (leg * leg / d - d) / 2, (leg * leg / d + d) / 2 }); std::sort(el.begin(), el.end()); CHECK_EQ(norm(pythagorean_triples_fixed_leg<i64>(leg, fac(leg))), el);
}
PROP(triples_are_ordered, 4600000, 115000000) {
    auto t = [&] { return T3{ c.range(-2, 2), c.coin() ? c.range(-2, 2) : c.any<i64>(), c.range(-2, 2) }; }; T3 x = t(), y = c.chance(1, 4) ? x : t(); if (c.coin()) y.a = x.a; if (c.coin()) y.b = x.b; c.show("x", std::vector<i64>{ x.a, x.b, x.c }); c.show("y", std::vector<i64>{ y.a, y.b, y.c }); std::vector<i64> u{ x.a, x.b, x.c }, v{ y.a, y.b, y.c }; CHECK_EQ(x < y, u < v); CHECK_EQ(y < x, v < u); CHECK_EQ(x == y, u == v); CHECK(x == x && !(x < x)); CHECK_EQ(max_element(x), *std::max_element(u.begin(), u.end())); CHECK_EQ(min_element(x), *std::min_element(u.begin(), u.end())); c.nontrivial(u[0] == v[0] && u != v); c.label("equal", u == v);
}
PROP(triples_with_offset, 73000, 1825000) {
    int k = (int)c.range(0, 60), n = (int)c.range(1, 120); SHOW(k); SHOW(n); c.nontrivial(k > 0 && n > 10); auto gens = pythagorean_triples_generators<int>(k); std::vector<std::vector<i64>> e; for (int a = 0; a <= n; a++) for (int b = a; b <= n; b++) { i64 s = (i64)a * a + (i64)b * b + k, x = ref::isqrt(s); if (x * x == s && x <= n && g3(a, b, x) == 1) e.push_back({ a, b, x }); }
    if (k == 0) { std::vector<std::vector<i64>> t; for (auto& x : e) if (x[0] > 0) t.push_back(x); e = t; } if (k == 1) { std::vector<std::vector<i64>> t; for (auto& x : e) if (x[0] > 0) t.push_back(x); e = t; }
    std::vector<triple<int>> g; for (auto& t : gens) { CHECK_EQ((i64)t.a * t.a + (i64)t.b * t.b + k, (i64)t.c * t.c); CHECK(is_primitive(t)); if (max_element(t) <= n) g.push_back(t); CHECK_EQ(min_element(t), std::min(t.a, std::min(t.b, t.c))); } auto v = generate_pythagorean_triples<int>(n, g); for (auto& t : v) if (t.a > t.b) std::swap(t.a, t.b); CHECK_EQ(norm(v), e);
}
PROP(sums_of_two_squares, 43000, 1075000) {
    static const std::vector<int> ps = ref::primes_upto(20000); i64 p = ps[1 + c.below(ps.size() - 1)]; i64 d = c.coin() ? 1 : c.range(1, std::min<i64>(p - 1, 30)); SHOW(p); SHOW(d); bool ex = false; for (i64 y = 1; d * y * y < p && !ex; y++) { i64 t = p - d * y * y, x = ref::isqrt(t); ex = x * x == t; } c.label("represented", ex); if (ex) { auto r = cornacchia<i64>(d, p); CHECK_MSG(r.first * r.first + d * r.second * r.second == p && r.first >= 0 && r.second > 0, "cornacchia: " << r.first << ", " << r.second); auto s = cornacchia<int>((int)d, (int)p); CHECK_MSG((i64)s.first * s.first + d * s.second * s.second == p, "cornacchia<int>"); if (d == 1) { auto t = squares_r_prime<i64>(p); CHECK(t.first * t.first + t.second * t.second == p && t.first <= t.second && t.first > 0); } }
    // representations of n from its factorization
    i64 n = 1; int k = (int)c.range(0, 5); for (int i = 0; i < k; i++) { i64 q = c.coin() ? c.pick<i64>({ 5, 13, 17, 2, 3, 29 }) : ps[c.below(40)]; if (n * q < 4000000) n *= q; } auto f = fac(n); SHOW(n); c.nontrivial(n > 5); std::vector<P2> all, uq; i64 r = ref::isqrt(n); for (i64 a = -r; a <= r; a++) { i64 t = n - a * a, b = ref::isqrt(t); if (b * b != t) continue; all.push_back({ a, -b }); if (b) all.push_back({ a, b }); if (0 <= a && a <= b) uq.push_back({ a, b }); } std::sort(all.begin(), all.end()); std::sort(uq.begin(), uq.end());
    auto l1 = squares_r_list<i64, i64>(f, true), l2 = squares_r_list<i64, i64>(f, false); CHECK_EQ(l1, uq); CHECK_EQ(l2, all); CHECK_EQ((squares_r<i64, i64>(f, true)), (i64)uq.size()); CHECK_EQ((squares_r<i64, i64>(f, false)), (i64)all.size());
    i64 mb = c.range(1, r + 1); SHOW(mb); std::unordered_map<i64, P2> tbl; if (c.coin()) tbl = squares_r_prime_table<i64>(c.range(1, 500)); std::vector<P2> um; for (auto& x : uq) if (x.second <= mb) um.push_back(x); CHECK_EQ((squares_r_list<i64, i64>(f, true, tbl, mb)), um); CHECK_EQ((squares_r_list<i64, i64>(f, true, tbl)), uq); // the table got filled by the first call
    i64 tn = c.range(1, 3000); auto tb = squares_r_prime_table<i64>(tn); for (int q : ps) { if (q > tn) break; if (q % 4 == 3) { CHECK_MSG(!tb.count(q), q << " in the table"); continue; } CHECK_MSG(tb.count(q), q << " is not in the table"); auto t = tb[q]; CHECK_MSG(t.first * t.first + t.second * t.second == q && t.first <= t.second && t.first > 0, "table entry of " << q); }
}
PROP(large_primes_as_sums, 3000000, 75000000) {
    i64 p = c.uinteger(5, 4000000000ull) | 1; while (!ref::is_prime(p)) p += 2; i64 d = c.range(1, 5); SHOW(p); SHOW(d); c.nontrivial(p > 1000000); if (p % 4 == 1) { auto t = squares_r_prime<i64>(p); CHECK_MSG(t.first * t.first + t.second * t.second == p && t.first > 0 && t.first <= t.second, "squares of " << p << ": " << t.first << ", " << t.second); } // class number one: represented iff -d is a residue
    if (d <= 3 && ref::powmod(p - d, (p - 1) / 2, p) == 1) { auto t = cornacchia<i64>(d, p); CHECK_MSG(t.first * t.first + d * t.second * t.second == p, "cornacchia: " << t.first << ", " << t.second); }
}

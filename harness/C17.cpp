// C17: continued fractions, convergents, lattice points close to a line, floor ladders, Farey neighbours, digits of fractions.
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/fractions.h"
#include "ref.h"
#include <set>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;
static i128 gcdr(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
PROP(continued_fractions, 230000, 5750000) {
    bool wide = c.coin(); i64 lim = wide ? INT64_MAX / 2 : 100000; i64 p = c.integer(c.coin() ? -lim : 0, lim), q = c.integer(1, lim); SHOW(p); SHOW(q); c.nontrivial(q > 1 && p % q); auto a = continued_fraction<i64>(p, q); CHECK(!a.empty());
    i128 n = a.back(), d = 1; for (int i = (int)a.size() - 2; i >= 0; i--) { i128 t = n; n = (i128)a[i] * n + d; d = t; } i128 g = gcdr(p, q); if (d < 0) n = -n, d = -d; CHECK_MSG(n == (i128)p / g && d == (i128)q / g, "continued fraction " << pbt::show(a) << " is another number"); if (p >= 0) { CHECK(a[0] == p / q); for (size_t i = 1; i < a.size(); i++) CHECK(a[i] >= 1); if (a.size() > 1) CHECK(a.back() >= 2); }
    auto v = convergents<i64>(a); CHECK_EQ(v.size(), a.size()); i128 p1 = 1, p2 = 0, q1 = 0, q2 = 1; for (size_t i = 0; i < v.size(); i++) { i128 x = a[i] * p1 + p2, y = a[i] * q1 + q2; CHECK_MSG(v[i].first == x && v[i].second == y, "convergent " << i); p2 = p1; p1 = x; q2 = q1; q1 = y; }
    i64 semi = c.coin() ? INT64_MAX : c.range(0, 5); SHOW(semi); u64 total = 0; for (i64 x : a) total += std::min<i64>(semi, std::max<i64>(x, 0) / 2) + 1; if (total < 3000 && p >= 0) { auto w = convergents<i64>(a, semi); std::vector<std::pair<i64, i64>> e; i64 p1 = 1, p2 = 0, q1 = 0, q2 = 1; for (i64 x : a) { i64 k = std::min<i64>(semi, x / 2); for (i64 t = x - k; t <= x; t++) e.push_back({ t * p1 + p2, t * q1 + q2 }); i64 np = x * p1 + p2, nq = x * q1 + q2; p2 = p1; p1 = np; q2 = q1; q1 = nq; } CHECK_EQ(w, e);
        // all best approximations are there
        if (semi == INT64_MAX && !wide) { std::set<std::pair<i64, i64>> s(w.begin(), w.end()); i128 bn = -1, bd = 1; for (i64 y = 1; y <= std::min<i64>(q, 150); y++) { i64 x = (2 * p + q) / (2 * q); (void)x; i64 r = (i64)(((i128)2 * p * y + q) / (2 * (i128)q)); i128 e = (i128)r * q - (i128)p * y; if (e < 0) e = -e; /* error e/(q y) */ if (bn < 0 || e * bd < bn * y) { bool tie = ((i128)2 * p * y + q) % (2 * (i128)q) == 0; if (!tie && gcdr(r, y) == 1) CHECK_MSG(s.count({ r, y }), "best approximation " << r << "/" << y << " is missing"); bn = e; bd = y; } } } }
}
PROP(sqrt_convergents, 12000000, 300000000) {
    i64 S = c.uinteger(0, 2000000000000ull), Q = c.uinteger(1, 1000000); if (c.chance(1, 4)) { i64 r = c.uinteger(0, 1000000); S = std::max<i64>(0, r * r + c.range(-2, 2)); } SHOW(S); SHOW(Q); i64 r = ref::isqrt(S); auto v = sqrt_convergent<i64>(S, Q); bool sq = r * r == S; c.nontrivial(!sq && Q > 1); if (sq) { CHECK_EQ(v, std::make_pair(r, (i64)1)); return; }
    // convergents of sqrt(S) by the textbook recurrence
    i128 p1 = 1, p2 = 0, q1 = 0, q2 = 1, m = 0, d = 1, a = r; while (true) { i128 p = a * p1 + p2, q = a * q1 + q2; p2 = p1; p1 = p; q2 = q1; q1 = q; if (q > Q) break; m = d * a - m; d = (S - m * m) / d; a = (r + m) / d; } CHECK_MSG(v.first == p1 && v.second == q1, "got " << v.first << "/" << v.second << " expected " << (i64)p1 << "/" << (i64)q1);
}
PROP(line_closest_point, 9000000, 225000000) {
    i64 L = c.pick<i64>({ 12, 200, 30000, 100000000 }); i64 a = c.range(-L, L), b = c.range(-L, L), k = c.range(-3 * L, 3 * L), x0 = c.range(-L, L), x1 = x0 + (i64)c.range(0, c.coin() ? 10 : 150); if (!a && !b) b = 1; SHOW(a); SHOW(b); SHOW(k); SHOW(x0); SHOW(x1); c.nontrivial(a && b && x1 > x0 && std::abs(a) % std::max<i64>(1, std::abs(b)));
    auto f = [&](i64 x) -> i128 { i128 t = (i128)a * x + k; if (t < 0) t = -t; i128 B = b < 0 ? -b : b; if (!B) return t; i128 r = t % B; return std::min(r, B - r); }; i64 x = line_closest_lattice_point<i64>(a, b, k, x0, x1); CHECK_MSG(x0 <= x && x <= x1, "x = " << x << " is outside the range"); for (i64 y = x0; y <= x1; y++) CHECK_MSG(f(x) <= f(y), "x = " << x << " has distance " << (i64)f(x) << ", x = " << y << " has " << (i64)f(y));
    if (L < 3000) { int z = line_closest_lattice_point<int>((int)a, (int)b, (int)k, (int)x0, (int)x1); CHECK_MSG(x0 <= z && z <= x1 && f(z) == f(x), "int: x = " << z); }
}
PROP(floor_ladder_minimum, 8500000, 212500000) {
    i64 L = c.pick<i64>({ 12, 200, 30000 }); i64 a = c.range(-L, L), b = c.range(-L, L), cc = c.range(-L, L), d = c.range(-2 * L, 2 * L), e = c.range(-L, L), x0 = c.range(-L, L), x1 = x0 + (i64)c.range(0, c.coin() ? 10 : 150); if (!e) e = 1; SHOW(a); SHOW(b); SHOW(cc); SHOW(d); SHOW(e); SHOW(x0); SHOW(x1); c.nontrivial(b && cc && x1 > x0);
    auto fl = [](i128 n, i128 m) { if (m < 0) n = -n, m = -m; return n >= 0 ? n / m : -((-n + m - 1) / m); }; auto f = [&](i64 x) -> i128 { return (i128)a * x + b * fl((i128)cc * x + d, e); }; i64 x = minimize_floor_ladder<i64>(a, b, cc, d, e, x0, x1); CHECK_MSG(x0 <= x && x <= x1, "x = " << x << " is outside the range"); for (i64 y = x0; y <= x1; y++) CHECK_MSG(f(x) <= f(y), "x = " << x << " gives " << (i64)f(x) << ", x = " << y << " gives " << (i64)f(y));
}
PROP(farey_neighbours, 9000000, 225000000) {
    i64 n = c.range(1, c.coin() ? 12 : 60); i64 q = c.range(1, n), p = c.range(0, 2 * n); i64 g = (i64)gcdr(p, q); p /= g; q /= g; SHOW(n); SHOW(p); SHOW(q); c.nontrivial(n > 2); typedef fraction<i64> F; F f(p, q);
    // neighbours by search
    F r(1, 0), l(-1, 0); for (i64 y = 1; y <= n; y++) { i64 x = p * y / q + 1; if (r.q == 0 || x * r.q < r.p * y) r = F(x, y); x = (p * y + q - 1) / q - 1; if (l.q == 0 || x * l.q > l.p * y) l = F(x, y); }
    auto eq = [&](const F& a, const F& b) { return a.p == b.p && a.q == b.q; }; auto s = [](const F& a) { return std::to_string(a.p) + "/" + std::to_string(a.q); }; F x = farey_neighbour<i64>(n, l, f); CHECK_MSG(eq(x, r), "after " << s(l) << ", " << s(f) << ": " << s(x) << " expected " << s(r)); x = farey_neighbour<i64>(n, r, f); CHECK_MSG(eq(x, l), "before " << s(f) << ", " << s(r) << ": " << s(x) << " expected " << s(l)); x = farey_neighbour<i64>(n, F(-1, 0), f); CHECK_MSG(eq(x, r), "after -inf, " << s(f) << ": " << s(x) << " expected " << s(r)); x = farey_neighbour<i64>(n, F(1, 0), f); CHECK_MSG(eq(x, l), "before " << s(f) << ", +inf: " << s(x) << " expected " << s(l));
}
PROP(digits_of_fractions, 15000, 375000) {
    i64 q = c.coin() ? c.range(2, 100) : c.range(2, 20000), p = c.range(1, q - 1); int b = c.chance(1, 5) ? (int)c.range(2, 100000) : (int)c.range(2, 16); SHOW(p); SHOW(q); SHOW(b); c.nontrivial(q > 3); auto v = repeating_decimal<i64>(b, p, q); size_t per = v.second, n = v.first.size(); CHECK(n > 0); CHECK(per <= n); c.label("repeats", per > 0); c.label("pre-period", per > 0 && per < n);
    std::vector<int> dg; std::vector<i64> rem{ p }; i64 r = p; for (size_t i = 0; i < n; i++) { dg.push_back((int)(r * b / q)); r = r * b % q; rem.push_back(r); } CHECK_MSG(dg == v.first, "digits of " << p << "/" << q); if (!per) { CHECK_EQ(rem[n], (i64)0); CHECK(rem[n - 1] != 0); } else { CHECK_EQ(rem[n - per], rem[n]); std::set<i64> s(rem.begin(), rem.end() - 1); CHECK_MSG(s.size() == n && !s.count(0), "digits are not the shortest representation"); }
    if (b < 30000 && q < 1000) { auto w = repeating_decimal<int>(b, (int)p, (int)q); CHECK_EQ(w.first, v.first); CHECK_EQ(w.second, v.second); }
    // single digits, far away
    i64 k = c.coin() ? c.range(0, 30) : c.uinteger(0, INT64_MAX); int len = (int)c.range(0, 12); SHOW(k); SHOW(len); u64 t = ref::mulmod(ref::powmod(b % q, k, q), p, q); std::vector<int> e; for (int i = 0; i < len; i++) { e.push_back((int)(t * b / q)); t = t * b % q; } CHECK_EQ(rational_digits<i64>(k, len, b, p, q), e); if (len) { i64 rr = -1; CHECK_EQ(rational_digit<i64>(k, b, p, q, &rr), e[0]); CHECK_EQ(rational_digit<i64>(k, b, p, q), e[0]); }
    i64 Q = c.integer(2, INT64_MAX / 20), P = c.integer(1, Q - 1); int B = (int)c.range(2, 16); t = ref::mulmod(ref::powmod(B % Q, k, Q), P, Q); SHOW(P); SHOW(Q); SHOW(B); CHECK_EQ(rational_digit<i64>(k, B, P, Q), (int)((u128)t * B / Q));
}

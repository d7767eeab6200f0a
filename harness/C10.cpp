// C10: closed-form and divide-by-blocks sums, look-up ranges, reductions, special number sequences.
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/algorithm/math/intrinsic.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "tables.h"
#include <list>
#include <set>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> modc; typedef moduloX<int> modx; typedef moduloX<i64> modxl;
template<typename M> struct Mk { M id; M operator()(i64 v) const { return castOf(id, v); } };
template<typename F> static void with_ring(Ctx& c, F body) {
    if (c.coin()) body(Mk<modc>{ modc(1) }, (i64)1000000007); else { int P = c.pick<int>({ 1000000007, 998244353, 10007, 101 }); c.show("modulus", P); body(Mk<modx>{ modx(1, P) }, (i64)P); }
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) q--; return q; }
// Sum[floor((a k + b) / q), k = 0..n-1] for large arguments: an independent formulation by counting lattice points
static i128 floor_sum(i128 n, i128 q, i128 a, i128 b) {
    if (n <= 0) return 0; if (q < 0) { q = -q; a = -a; b = -b; }
    i128 r = 0, A = fdiv(a, q), B = fdiv(b, q); r += A * (n * (n - 1) / 2) + B * n; a -= A * q; b -= B * q;
    if (a == 0) return r; i128 y = (a * (n - 1) + b) / q; // count lattice points under the line row by row: k counts for row j when a k + b >= j q
    // Sum over j = 1..y of (n - ceil((j q - b) / a)) = y n - Sum[floor((j q - b + a - 1) / a)]
    return r + y * n - floor_sum(y, a, q, q - b + a - 1);
}
PROP(sum_ratio_small, 2300000, 57500000) {
    i64 a = c.integer(-1000000, 1000000), b = c.integer(-1000000, 1000000), q = c.integer(1, 100000); if (c.coin()) q = -q; i64 n = c.range(-1, 60); if (c.chance(1, 10)) n = c.range(60, 2000); SHOW(a); SHOW(b); SHOW(q); SHOW(n); c.nontrivial(n > 2 && a % q != 0);
    i128 e = 0; for (i64 k = 0; k < n; k++) e += fdiv((i128)a * k + b, q);
    CHECK_EQ((sum_ratio<i64, i64>(a, b, q, n)), (i64)e);
    if (ref::absu((i64)e) < 1000000000 && n < 1000 && ref::absu(a) * std::max<i64>(n, 1) + ref::absu(b) + ref::absu(q) < 1000000000) { c.label("int"); i128 m = 0; for (i64 k = 0; k < n; k++) m = std::max<i128>(m, (i128)ref::absu((i64)fdiv((i128)a * k + b, q))); if ((i64)m * n < 400000000) CHECK_EQ((sum_ratio<int, int>((int)a, (int)b, (int)q, (int)n)), (int)e); }
    int P = c.pick<int>({ 1000000007, 101 }); CHECK_EQ((i64)(sum_ratio<modx, i64>(a, b, q, n, modx(0, P)).v), ref::mod(e, P));
}
PROP(sum_ratio_large, 5500000, 137500000) {
    i64 n = c.integer(1, 2000000000), a = c.integer(-2000000000, 2000000000), b = c.integer(-1000000000000000000, 1000000000000000000), q = c.integer(1, 2000000000); if (c.coin()) q = -q; SHOW(a); SHOW(b); SHOW(q); SHOW(n); c.nontrivial(n > 1000 && a % q != 0 && ref::absu(a) > 1000);
    i128 e = floor_sum(n, q, a, b); int P = c.pick<int>({ 1000000007, 998244353, 101 });
    CHECK_EQ((i64)(sum_ratio<modxl, i64>(a, b, q, n, modxl(0, P)).v), ref::mod(e, P));
}
PROP(sum_of_powers, 67000, 1675000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; int p = (int)c.range(0, 25); i64 n = c.range(0, 40); if (c.chance(1, 20)) n = c.range(0, 3000); i64 x = c.coin() ? c.range(2, 12) : c.range(0, P - 1); if (x == 1) x = P - 1; c.show("p", p); c.show("n", n); c.show("x", x); c.nontrivial(n > 2 && p > 0);
        i64 e = 0, ex = 0; for (i64 k = 1; k <= n; k++) { i64 t = (i64)ref::powmod(k, p, P); e = (e + t) % P; ex = (ex + (i64)ref::mulmod(t, ref::powmod(x, k, P), P)) % P; }
        CHECK_EQ((i64)(sum_pow<R, i64>(p, n, mk(1)).v), e); CHECK_EQ((i64)(sum_pow<R, int>(p, (int)n, bernoulli_b<R>(p + (int)c.below(3), mk(1))).v), e);
        CHECK_EQ((i64)(sum_powx<R, i64>(p, mk(x), n).v), ex);
    });
    { int p = (int)c.range(0, 3); i64 n = c.range(0, 2000), e = 0; for (i64 k = 1; k <= n; k++) e += (i64)ref::ipow(k, p); CHECK_EQ((sum_pow<i64, i64>(p, n)), e); }
    { int p = (int)c.range(0, 6); i64 n = c.range(0, 12), e = 0; for (i64 k = 1; k <= n; k++) e += (i64)ref::ipow(k, p); typedef fraction<i64> Q; Q r = sum_pow<Q, i64>(p, n); CHECK_MSG(r.p == e && r.q == 1, "sum_pow over fractions p=" << p << " n=" << n << ": " << r.p << "/" << r.q); }
}
PROP(sums_by_blocks, 420000, 10500000) {
    i64 n = c.range(-1, 120); if (c.chance(1, 10)) n = c.range(100, 3000); if (c.chance(1, 4)) { i64 s = c.range(1, 40); n = s * s + c.range(-1, 1); if (c.coin()) n += s; } SHOW(n); c.nontrivial(n > 3); u64 salt = c.below(1000);
    auto h = [&](u64 k, u64 s) { u64 z = (k + 1) * 0x9e3779b97f4a7c15ull + (s + salt) * 0xbf58476d1ce4e5b9ull; z ^= z >> 31; return (i64)(z % 2001) - 1000; };
    std::vector<i64> S(std::max<i64>(n, 0) + 1, 0); for (i64 k = 1; k <= n; k++) S[k] = S[k - 1] + h(k, 1);
    auto f = [&](i64 k) { if (k < 1 || k > n) throw pbt::Fail{ "f evaluated at " + std::to_string(k) }; return h(k, 1); }; auto g = [&](i64 k) { if (k < 1 || k > n) throw pbt::Fail{ "g evaluated at " + std::to_string(k) }; return h(k, 2); }; auto sf = [&](i64 k) { if (k < 0 || k > n) throw pbt::Fail{ "sf evaluated at " + std::to_string(k) }; return S[k]; };
    i64 e = 0, e2 = 0, e3 = 0; for (i64 k = 1; k <= n; k++) e += h(n / k, 2), e2 += h(k, 1) * h(n / k, 2), e3 += h(k, 1) * h(n / k, 2) + k * k * h(n / k, 3);
    CHECK_EQ((sum_sqrt<i64, i64>(g, n)), e); CHECK_EQ((sum_sqrt2m<i64, i64>(sf, g, n)), e2); CHECK_EQ((sum_sqrt2m<i64, i64>(f, sf, g, n)), e2);
    auto sf2 = [&](i64 k, i64 m) { if (k < 0 || k > n || m < 1 || m > n) throw pbt::Fail{ "sf evaluated out of range" }; return S[k] * h(m, 2) + k * (k + 1) * (2 * k + 1) / 6 * h(m, 3); }; CHECK_EQ((sum_sqrt2<i64, i64>(sf2, n)), e3);
    int ni = (int)n, P = 10007; auto gm = [&](int k) { return modx((int)ref::mod(h(k, 2), P), P); }; CHECK_EQ((i64)(sum_sqrt<modx, int>(gm, ni, modx(0, P)).v), ref::mod(e, P));
    auto sm = [&](int k) { return modx((int)ref::mod(S[k], P), P); }; CHECK_EQ((i64)(sum_sqrt2m<modx, int>(sm, gm, ni, modx(0, P)).v), ref::mod(e2, P));
    i64 lo = c.range(-20, 20), hi = lo + c.range(-3, 30), es = 0; std::multiset<i64> seen; for (i64 k = lo; k <= hi; k++) es += h((u64)k, 4); CHECK_EQ((sum<i64, i64>([&](i64 k) { seen.insert(k); return h((u64)k, 4); }, lo, hi)), es); CHECK_EQ((i64)seen.size(), std::max<i64>(0, hi - lo + 1));
}
PROP(look_up_ranges, 120000, 3000000) {
    with_ring(c, [&](auto mk, i64 P) {
        typedef decltype(mk(1)) R; int n = (int)c.range(0, c.chance(1, 20) ? 101 : 25); i64 s = c.range(0, P - 1); c.show("n", n); c.show("s", s); c.nontrivial(n > 2 && s > 1);
        auto vals = [](const std::vector<R>& v) { std::vector<i64> r; for (auto& x : v) r.push_back(x.v); return r; }; auto inv = [&](i64 x) { return (i64)ref::powmod(x, P - 2, P); };
        std::vector<i64> rg(n), pw(n), fa(n), ifa(n), iv(n); for (int i = 0; i < n; i++) rg[i] = (i64)ref::mulmod(i, s, P), pw[i] = (i64)ref::powmod(s, i, P), fa[i] = i ? fa[i - 1] * i % P : 1, ifa[i] = inv(fa[i]), iv[i] = i ? inv(i) : 0;
        CHECK_EQ(vals(range<R>(n, mk(s))), rg); CHECK_EQ(vals(powers<R>(n, mk(s))), pw); CHECK_EQ(vals(make_factorials<R>(n, mk(1))), fa); CHECK_EQ(vals(make_inv_factorials<R>(n, mk(1))), ifa); CHECK_EQ(vals(make_inverses<R>(n, mk(1))), iv);
        int k = (int)c.range(0, std::min<i64>(P - 1, 30)); i64 fk = 1; for (int i = 2; i <= k; i++) fk = fk * i % P; c.show("k", k); c.label("k! beyond the table", k >= n); CHECK_EQ(vals(make_inv_factorials<R>(n, mk(fk), k)), ifa);
        { std::vector<R> v(n, mk(1)); for (int i = 0; i < n; i++) v[i] = mk(ifa[i]); inverses_from_ifact(v.begin(), v.end(), mk(1)); CHECK_EQ(vals(v), iv); }
        std::vector<i64> a(n); std::vector<R> v0(n, mk(0)); for (int i = 0; i < n; i++) a[i] = c.chance(1, 8) ? 0 : c.range(0, P - 1), v0[i] = mk(a[i]); c.show("a", a);
        auto w = a; auto v = v0; int e = (int)c.range(0, 40); power(v.begin(), v.end(), e); for (auto& x : w) x = (i64)ref::powmod(x, e, P); CHECK_EQ(vals(v), w);
        w = a; v = v0; invert(v.begin(), v.end(), mk(1)); for (auto& x : w) x = x ? inv(x) : 0; CHECK_EQ(vals(v), w);
        w = a; v = v0; for (int i = 0; i < n; i++) { if (!w[i]) w[i] = 1, v[i] = mk(1); w[i] = inv(w[i]); } invert_field(v.begin(), v.end(), mk(1)); CHECK_EQ(vals(v), w);
        w = a; v = v0; altruct::math::negate(v.begin(), v.end()); for (auto& x : w) x = (P - x) % P; CHECK_EQ(vals(v), w);
        w = a; v = v0; alternate(v.begin(), v.end()); for (int i = 1; i < n; i += 2) w[i] = (P - w[i]) % P; CHECK_EQ(vals(v), w);
        w = a; v = v0; accumulate(v.begin(), v.end()); for (int i = 1; i < n; i++) w[i] = (w[i] + w[i - 1]) % P; CHECK_EQ(vals(v), w); differentiate(v.begin(), v.end()); CHECK_EQ(vals(v), a);
        w = a; v = v0; differentiate(v.begin(), v.end()); for (int i = n - 1; i > 0; i--) w[i] = (w[i] + P - w[i - 1]) % P; CHECK_EQ(vals(v), w); std::list<R> l(v.begin(), v.end()); accumulate(l.begin(), l.end()); CHECK_EQ(vals(std::vector<R>(l.begin(), l.end())), a);
    });
}
template<typename T> static void reductions(Ctx& c) {
    int n = (int)c.range(0, 8); std::vector<T> v(n); for (auto& x : v) { x = c.coin() ? (T)c.range(0, 8) : c.any<T>(); if (x == std::numeric_limits<T>::min() && x != 0) x++; } c.show("v", v); c.nontrivial(n > 1); typedef std::numeric_limits<T> L;
    T mn = L::max(), mx = std::is_signed<T>::value ? (T)-L::max() : (T)0; for (auto x : v) mn = std::min(mn, x), mx = std::max(mx, x); CHECK_EQ(reduce_min(v), mn); if (n || std::is_signed<T>::value) CHECK_EQ(reduce_max(v), mx);
    T id = c.any<T>(); T a = id, b = id; for (auto x : v) a = std::min(a, x), b = std::max(b, x); CHECK_EQ(reduce_min(v, id), a); CHECK_EQ(reduce_max(v, id), b);
    std::vector<T> s; for (int i = (int)c.range(0, 10); i-- > 0;) s.push_back((T)c.range(0, 7)); std::sort(s.begin(), s.end()); c.show("sorted", s); T m = 0; while (std::count(s.begin(), s.end(), m)) m++; CHECK_EQ(reduce_mex(s), m); CHECK_EQ(reduce_mex(std::set<T>(s.begin(), s.end())), m); CHECK_EQ(reduce_mex(std::multiset<T>(s.begin(), s.end())), m);
    i64 sm = 0, pr = 1; for (auto x : s) sm += x, pr *= x + 1; std::vector<i64> s1; for (auto x : s) s1.push_back(x + 1); CHECK_EQ(reduce_sum(s1), sm + (i64)s.size()); CHECK_EQ(reduce_product(s1), pr); CHECK_EQ(reduce(s1, [](i64 r, i64 e) { return r * 31 % 1000003 + e; }, (i64)7), [&] { i64 r = 7; for (auto x : s1) r = r * 31 % 1000003 + x; return r; }());
}
PROP(reductions_of_containers, 980000, 24500000) { switch (c.below(5)) { case 0: reductions<int>(c); break; case 1: reductions<i64>(c); break; case 2: reductions<unsigned>(c); break; case 3: reductions<u64>(c); break; default: reductions<short>(c); } }
PROP(special_numbers, 5700000, 142500000) {
    using namespace sequences; i64 n = c.integer(-1000, 1000); SHOW(n); c.nontrivial(n > 1 || n < -1); typedef i64 R;
    CHECK_EQ((delta<R, i64>(n)), (R)(n == 0)); CHECK_EQ((dirichlet_id<R, i64>(n)), (R)(n == 1)); CHECK_EQ((sequences::zero<R, i64>(n)), (R)0); CHECK_EQ((one<R, i64>(n)), (R)1); CHECK_EQ((sequences::identity<R, i64>(n)), n); CHECK_EQ((square<R, i64>(n)), n * n); CHECK_EQ((cube<R, i64>(n)), n * n * n);
    if (n >= 0) {
        R t = 0, te = 0, py = 0; for (i64 k = 1; k <= n; k++) t += k, te += t, py += k * k; R oc = 0, dn = 0; for (i64 k = 1; k <= n; k++) oc += k * k + (k - 1) * (k - 1); (void)dn;
        CHECK_EQ((triangular<R, i64>(n)), t); CHECK_EQ((tetrahedral<R, i64>(n)), te); CHECK_EQ((pyramidal<R, i64>(n)), py); CHECK_EQ((octahedral<R, i64>(n)), oc);
        R d = 3 * n; d = n * (3 * n - 1) / 2 * (3 * n - 2) + (n * (3 * n - 1) % 2 ? (3 * n - 2) / 2 : 0); CHECK_EQ((dodecahedral<R, i64>(n)), d); CHECK_EQ((icosahedral<R, i64>(n)), (5 * n * n * n - 5 * n * n + 2 * n) / 2);
        CHECK_EQ((triangular<int, int>((int)n)), (int)t); CHECK_EQ((i64)(tetrahedral<modc, i64>(n).v), te % 1000000007); CHECK_EQ((i64)(pyramidal<modc, int>((int)n).v), py % 1000000007); CHECK_EQ((i64)(octahedral<modc, i64>(n).v), oc % 1000000007); CHECK_EQ((i64)(dodecahedral<modc, i64>(n).v), d % 1000000007); CHECK_EQ((i64)(triangular<modc, i64>(n).v), t);
        if (n <= 400) { R s0 = 0, s1 = 0, s2 = 0; for (i64 k = 1; k <= n; k++) s0 += n / k, s1 += n / k * k, s2 += n / k * k * k; CHECK_EQ((sum_sigma0<R, i64>(n)), s0); CHECK_EQ((sum_sigma1<R, i64>(n)), s1); CHECK_EQ((sum_sigma2<R, i64>(n)), s2); CHECK_EQ((i64)(sum_sigma2<modc, int>((int)n).v), s2 % 1000000007); CHECK_EQ((sum_sigma0<int, int>((int)n)), (int)s0); }
    }
    u64 x = c.any<u64>(), y = c.any<u64>(), r = 0; bool o = add_overflow<u64>(x, y, &r); CHECK_EQ(r, x + y); CHECK_EQ(o, r < x); i64 xi = c.any<i64>(), yi = c.any<i64>(), ri = 0; o = add_overflow<i64>(xi, yi, &ri); i128 z = (i128)xi + yi; CHECK_EQ(o, z != (i128)(i64)z); CHECK_EQ(ri, (i64)z); uint8_t x8 = (uint8_t)x, y8 = (uint8_t)y, r8; o = add_overflow<uint8_t>(x8, y8, &r8); CHECK_EQ(o, x8 + y8 > 255); CHECK_EQ((int)r8, (x8 + y8) & 255);
}
// the documented defaults: unit T(1), step T(1), zero T(0), k = 1
PROP(default_arguments, 120000, 3000000) {
    const i64 P = 1000000007; int n = (int)c.range(0, 25); SHOW(n); c.nontrivial(n > 3); auto vals = [](const std::vector<modc>& v) { std::vector<i64> r; for (auto& x : v) r.push_back(x.v); return r; }; typedef std::vector<modc> V;
    CHECK_EQ(vals(range<modc>(n)), vals(range<modc>(n, modc(1)))); CHECK_EQ(vals(make_factorials<modc>(n)), vals(make_factorials<modc>(n, modc(1)))); CHECK_EQ(vals(make_inv_factorials<modc>(n)), vals(make_inv_factorials<modc>(n, modc(1), 1))); CHECK_EQ(vals(make_inverses<modc>(n)), vals(make_inverses<modc>(n, modc(1))));
    V v(n, modc(5)), w = v; range(v.begin(), v.end()); CHECK_EQ(vals(v), vals(range<modc>(n, modc(1)))); factorials(v.begin(), v.end()); CHECK_EQ(vals(v), vals(make_factorials<modc>(n, modc(1)))); inv_factorials(v.begin(), v.end()); CHECK_EQ(vals(v), vals(make_inv_factorials<modc>(n, modc(1))));
    inverses_from_ifact(v.begin(), v.end()); CHECK_EQ(vals(v), vals(make_inverses<modc>(n, modc(1)))); inverses(w.begin(), w.end()); CHECK_EQ(vals(w), vals(v));
    for (auto& x : v) x = modc((int)c.range(1, P - 1)); w = v; c.show("v", vals(v)); auto u = v; invert(v.begin(), v.end()); invert(w.begin(), w.end(), modc(1)); CHECK_EQ(vals(v), vals(w)); v = u; invert_field(v.begin(), v.end()); CHECK_EQ(vals(v), vals(w));
    i64 s = 0, p = 1; for (auto& x : u) s = (s + x.v) % P, p = p * x.v % P; CHECK_EQ((i64)reduce_sum(u).v, s); CHECK_EQ((i64)reduce_product(u).v, p);
    i64 m = c.range(0, 300), a = c.range(-50, 50), b = c.range(-50, 50), q = c.range(1, 20); SHOW(m); SHOW(a); SHOW(b); SHOW(q); auto g = [](i64 k) { return modc((int)(k % 1000 * 7 + 3)); }; auto sf = [](i64 k) { return modc((int)(k % 10007)); }; auto sf2 = [](i64 k, i64 j) { return modc((int)(k * (j % 17 + 2) % 10007)); };
    CHECK_EQ((sum_ratio<modc, i64>(a, b, q, m).v), (sum_ratio<modc, i64>(a, b, q, m, modc(0)).v)); CHECK_EQ((sum<modc, i64>(g, 0, m).v), (sum<modc, i64>(g, 0, m, modc(0)).v)); int pw = (int)c.range(0, 8); SHOW(pw); CHECK_EQ((sum_pow<modc, i64>(pw, m).v), (sum_pow<modc, i64>(pw, m, modc(1)).v));
    CHECK_EQ((sum_sqrt<modc, i64>(g, m).v), (sum_sqrt<modc, i64>(g, m, modc(0)).v)); CHECK_EQ((sum_sqrt2m<modc, i64>(sf, g, m).v), (sum_sqrt2m<modc, i64>(sf, g, m, modc(0)).v)); auto f1 = [](i64 k) { return modc(1); }; CHECK_EQ((sum_sqrt2m<modc, i64>(f1, sf, g, m).v), (sum_sqrt2m<modc, i64>(f1, sf, g, m, modc(0)).v)); CHECK_EQ((sum_sqrt2<modc, i64>(sf2, m).v), (sum_sqrt2<modc, i64>(sf2, m, modc(0)).v));
}

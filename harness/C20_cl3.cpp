// C20: see C20.h
#include "C20.h"
// ---- Clifford algebra of 3-space: the same model without e0 ------------------------------------
namespace k = altruct::math::cl3;
typedef k::rotor<F> R; typedef k::vector<F> V; typedef k::multivector<F> M;
static MV cv(const R& r) { MV m{}; m[0] = g(r.s); m[12] = g(r.yz); m[10] = md(-g(r.zx)); m[6] = g(r.xy); return m; }
static MV cv(const V& v) { MV m{}; m[2] = g(v.x); m[4] = g(v.y); m[8] = g(v.z); m[14] = g(v.w); return m; }
static MV cv(const M& a) { return add(cv(a.r), cv(a.v)); }
template<typename B> struct ck {};
template<> struct ck<R> { enum { M = 1 | 1 << 12 | 1 << 10 | 1 << 6 }; static R of(const MV& m) { return R(f(m[0]), f(m[12]), f(-m[10]), f(m[6])); } };
template<> struct ck<V> { enum { M = 1 << 2 | 1 << 4 | 1 << 8 | 1 << 14 }; static V of(const MV& m) { return V(f(m[2]), f(m[4]), f(m[8]), f(m[14])); } };
template<> struct ck<M> { enum { M = ck<R>::M | ck<V>::M }; static ::M of(const MV& m) { return ::M(ck<R>::of(m), ck<V>::of(m)); } };
template<typename B> static MV cdraw(pbt::Ctx& c) { MV m{}; for (int i = 0; i < 16; i++) if (ck<B>::M >> i & 1) m[i] = coef(c); return m; }
#define CSAME(what, lib, model) do { MV l_ = cv(lib), m_ = (model); CHECK_MSG(l_ == m_, what << " gives " << str(l_) << " instead of " << str(m_)); } while (0)
static MV conj(const MV& a) { MV r = a; for (int i = 0; i < 16; i++) if (grade(i) == 1 || grade(i) == 2) r[i] = md(-r[i]); return r; }
static bool invertible(const MV& y) { /* y times its Clifford conjugate is a + b e123, of norm a^2 + b^2 */ MV t = geo(y, conj(y)); return md(t[0] * t[0] + t[14] * t[14]) != 0; }
static MV cinv(const MV& y) { MV t = geo(y, conj(y)), u{}; ll n = minv(md(t[0] * t[0] + t[14] * t[14])); u[0] = md(t[0] * n); u[14] = md(-t[14] * n); return geo(conj(y), u); }
static bool covered(const MV& y) { /* the formula divides by the even part unless that is zero */ MV e = y; for (int i : { 2, 4, 8, 14 }) e[i] = 0; return invertible(y) && (e == MV{} || invertible(e)); }
template<typename A> static void cunary(pbt::Ctx& c, const MV& x, ll t) { const A a = ck<A>::of(x); CSAME("-a", -a, neg(x)); CSAME("a t", a * f(t), scale(x, t)); CSAME("t a", f(t) * a, scale(x, t)); A u = a; u *= f(t); CSAME("a *= t", u, scale(x, t)); u = a; u += u; CSAME("a += a", u, scale(x, 2)); u = a; u -= u; CSAME("a -= a", u, MV{}); if (t) { CSAME("a / t", a / f(t), scale(x, minv(t))); u = a; u /= f(t); CSAME("a /= t", u, scale(x, minv(t))); } CSAME("rev", a.rev(), rev(x)); CSAME("conj", a.conj(), conj(x)); CSAME("conjugateT", conjugateT<A>::of(a), conj(x)); CSAME("zero", zeroOf(a), MV{}); if (covered(x)) { CSAME("inv", a.inv(), cinv(x)); CSAME("t / a", f(t) / a, scale(cinv(x), t)); } CSAME("a", a, x); }
template<typename A, typename B> static void cbinary(pbt::Ctx& c, const MV& x, const MV& y) { const A a = ck<A>::of(x); const B b = ck<B>::of(y); CSAME("a + b", a + b, add(x, y)); CSAME("a - b", a - b, add(x, neg(y))); CSAME("a b", a * b, geo(x, y)); if (covered(y)) { CSAME("a / b", a / b, geo(x, cinv(y))); } CSAME("a", a, x); CSAME("b", b, y); }
template<typename A, typename B> static void cassign(pbt::Ctx& c, const MV& x, const MV& y) { const B b = ck<B>::of(y); A u = ck<A>::of(x); u *= b; CSAME("a *= b", u, geo(x, y)); if (covered(y)) { u = ck<A>::of(x); u /= b; CSAME("a /= b", u, geo(x, cinv(y))); } }
template<typename A, typename B> static void caddassign(pbt::Ctx& c, const MV& x, const MV& y) { const B b = ck<B>::of(y); A u = ck<A>::of(x); u += b; CSAME("a += b", u, add(x, y)); u = ck<A>::of(x); u -= b; CSAME("a -= b", u, add(x, neg(y))); }
template<typename A, size_t N> static void corder(pbt::Ctx& c, const A& a, const A& b, const std::array<ll, N>& x, const std::array<ll, N>& y) { CHECK_EQ(a == b, x == y); CHECK_EQ(a != b, x != y); CHECK_EQ(a < b, x < y); CHECK_EQ(a > b, x > y); CHECK_EQ(a <= b, x <= y); CHECK_EQ(a >= b, x >= y); }
static std::array<ll, 8> key(const MV& m) { return { m[0], m[12], md(-m[10]), m[6], m[2], m[4], m[8], m[14] }; }
PROP(clifford_algebra, 11000, 275000) {
    MV x = cdraw<M>(c), y = c.chance(1, 6) ? x : cdraw<M>(c); if (c.chance(1, 5)) for (int i : { 0, 12, 10, 6 }) y[i] = 0; else if (c.chance(1, 5)) for (int i : { 2, 4, 8, 14 }) y[i] = 0; if (c.chance(1, 5)) { y = x; auto& z = y[c.pick<int>({ 0, 12, 10, 6, 2, 4, 8, 14 })]; z = coef(c); } ll t = coef(c); c.show("x", str(x)); c.show("y", str(y)); SHOW(t); auto ev = [](MV m) { for (int i : { 2, 4, 8, 14 }) m[i] = 0; return m; }; auto od = [](MV m) { for (int i : { 0, 12, 10, 6 }) m[i] = 0; return m; }; MV xe = ev(x), xo = od(x), ye = ev(y), yo = od(y);
    cunary<R>(c, xe, t); cunary<V>(c, xo, t); cunary<M>(c, x, t); cbinary<R, R>(c, xe, ye); cbinary<R, V>(c, xe, yo); cbinary<V, R>(c, xo, ye); cbinary<R, M>(c, xe, y); cbinary<V, M>(c, xo, y); cbinary<M, R>(c, x, ye); cbinary<M, V>(c, x, yo); cbinary<M, M>(c, x, y);
    { const V a = ck<V>::of(xo), b = ck<V>::of(yo); CSAME("v + v", a + b, add(xo, yo)); CSAME("v - v", a - b, add(xo, neg(yo))); CSAME("v v", a * b, geo(xo, yo)); if (covered(yo)) CSAME("v / v", a / b, geo(xo, cinv(yo))); }
    cassign<R, R>(c, xe, ye); cassign<V, R>(c, xo, ye); cassign<M, R>(c, x, ye); cassign<M, V>(c, x, yo); cassign<M, M>(c, x, y); caddassign<R, R>(c, xe, ye); caddassign<V, V>(c, xo, yo); caddassign<M, R>(c, x, ye); caddassign<M, V>(c, x, yo); caddassign<M, M>(c, x, y); { R r = ck<R>::of(xe); r *= r; CSAME("r *= r", r, geo(xe, xe)); M m = ck<M>::of(x); m *= m; CSAME("m *= m", m, geo(x, x)); m = ck<M>::of(x); m *= m.r; CSAME("m *= m.r", m, geo(x, xe)); m = ck<M>::of(x); m *= m.v; CSAME("m *= m.v", m, geo(x, xo)); if (xe != MV{} && covered(xe)) { m = ck<M>::of(x); m /= m.r; CSAME("m /= m.r", m, geo(x, cinv(xe))); } if (covered(xo)) { m = ck<M>::of(x); m /= m.v; CSAME("m /= m.v", m, geo(x, cinv(xo))); } if (covered(x)) { MV one{}; one[0] = 1; m = ck<M>::of(x); m /= m; CSAME("m /= m", m, one); } }
    CHECK_EQ(g(ck<R>::of(xe).abs2()), geo(xe, rev(xe))[0]); CHECK_EQ(g(ck<V>::of(xo).abs2()), geo(xo, rev(xo))[0]); { MV one{}; one[0] = 1; CSAME("identity rotor", identityOf(ck<R>::of(xe)), one); CSAME("identity", identityOf(ck<M>::of(x)), one); CSAME("rotor()", R(), one); CSAME("vector()", V(), MV{}); MV s{}; s[0] = t; CSAME("rotor(t)", R(f(t)), s); CSAME("castOf rotor", castOf(ck<R>::of(xe), f(t)), s); CSAME("castOf multivector", castOf(ck<M>::of(x), f(t)), s); int ti = (int)(t % 1000); MV si{}; si[0] = md(ti); MV wi{}; wi[14] = md(ti); CSAME("castOf<rotor>(int)", castOf<R>(ti), si); CSAME("castOf<multivector>(int)", castOf<M>(ti), si); CSAME("castOf<vector>(int)", castOf<V>(ti), wi); CSAME("castOf(vector, int)", castOf(ck<V>::of(xo), ti), wi); CSAME("castOf(rotor, int)", castOf(ck<R>::of(xe), ti), si); CSAME("zero vector", zeroOf(ck<V>::of(xo)), MV{}); MV v = xo; v[14] = 0; CSAME("vector(x, y, z)", V(f(x[2]), f(x[4]), f(x[8])), v); CSAME("multivector(rotor)", M(ck<R>::of(xe)), xe); CSAME("multivector(vector)", M(ck<V>::of(xo)), xo); }
    { auto kx = key(x), ky = key(y); auto lo = [](const std::array<ll, 8>& q) { return std::array<ll, 4>{ q[0], q[1], q[2], q[3] }; }; auto hi = [](const std::array<ll, 8>& q) { return std::array<ll, 4>{ q[4], q[5], q[6], q[7] }; }; corder(c, ck<M>::of(x), ck<M>::of(y), kx, ky); corder(c, ck<R>::of(xe), ck<R>::of(ye), lo(kx), lo(ky)); corder(c, ck<V>::of(xo), ck<V>::of(yo), hi(kx), hi(ky)); }
    { const V a = ck<V>::of(xo), b = ck<V>::of(yo); const R r = ck<R>::of(ye); CSAME("reflect", a.reflect(b), neg(geo(geo(yo, xo), rev(yo)))); CSAME("rotate", a.rotate(r), geo(geo(ye, xo), rev(ye))); } c.nontrivial(xe != MV{} && xo != MV{} && ye != MV{} && yo != MV{}); c.label("invertible", covered(y)); c.label("even part zero", ye == MV{} && yo != MV{});
}
PROP(clifford_rotations, 1600000, 40000000) {
    typedef k::vector<double> D; auto rd = [&] { return D(c.range(-20, 20) / 4.0, c.range(-20, 20) / 4.0, c.range(-20, 20) / 4.0); }; D u = rd(), v = rd(), w = rd(); c.assume(u.abs2() > 0.1 && v.abs2() > 0.1); double lu = std::sqrt(u.abs2()), lv = std::sqrt(v.abs2()), d = (u.x * v.x + u.y * v.y + u.z * v.z) / lu / lv; c.assume(d > -0.999); auto near = [](const D& p, const D& q) { return std::abs(p.x - q.x) < 1e-6 && std::abs(p.y - q.y) < 1e-6 && std::abs(p.z - q.z) < 1e-6 && std::abs(p.w - q.w) < 1e-6; };
    auto r = k::make_rotor(u, v); CHECK_MSG(std::abs(r.abs2() - 1) < 1e-9, "the rotor is not normalised"); CHECK_MSG(near(u.rotate(r), v * (lu / lv)), "the rotor does not turn u towards v"); D x = w.rotate(r); CHECK_MSG(std::abs(x.abs2() - w.abs2()) < 1e-6, "a rotation changes a length"); D n(u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x); CHECK_MSG(near(n.rotate(r), n), "the axis moves"); CHECK_MSG(near(x.rotate(r.rev()), w), "rotating back"); auto m = k::make_reflector(u); double t = 2 * (w.x * u.x + w.y * u.y + w.z * u.z) / u.abs2(); CHECK_MSG(near(w.reflect(m), D(w.x - t * u.x, w.y - t * u.y, w.z - t * u.z)), "reflection along u"); CHECK_MSG(near(u.unit() * lu, u), "unit"); c.nontrivial(d < 0.999);
}
// ---- plain vectors ----------------------------------------------------------------------------
template<typename Vt, typename E, typename T, size_t N, typename MKV> static void vec_ops(pbt::Ctx& c, const std::array<ll, N>& x, const std::array<ll, N>& y, ll t, E el, MKV mkv) {
    const Vt a = mkv(x), b = mkv(y); auto ck = [&](const char* what, const Vt& r, std::function<ll(size_t)> m) { for (size_t i = 0; i < N; i++) CHECK_MSG((ll)el(r, i) == m(i), what << " component " << i << ": " << (ll)el(r, i) << " instead of " << m(i)); }; bool nz = true; for (ll v : y) nz = nz && v;
    ck("a", a, [&](size_t i) { return x[i]; }); ck("a + b", a + b, [&](size_t i) { return x[i] + y[i]; }); ck("a - b", a - b, [&](size_t i) { return x[i] - y[i]; }); ck("-a", -a, [&](size_t i) { return -x[i]; }); ck("a b", a * b, [&](size_t i) { return x[i] * y[i]; }); ck("a t", a * T(t), [&](size_t i) { return x[i] * t; }); if (t) ck("a / t", a / T(t), [&](size_t i) { return x[i] / t; }); if (nz) ck("a / b", a / b, [&](size_t i) { return x[i] / y[i]; });
    Vt u = a; u += b; ck("+=", u, [&](size_t i) { return x[i] + y[i]; }); u = a; u -= b; ck("-=", u, [&](size_t i) { return x[i] - y[i]; }); u = a; u *= b; ck("*=", u, [&](size_t i) { return x[i] * y[i]; }); u = a; u *= T(t); ck("*= t", u, [&](size_t i) { return x[i] * t; }); if (t) { u = a; u /= T(t); ck("/= t", u, [&](size_t i) { return x[i] / t; }); } if (nz) { u = a; u /= b; ck("/=", u, [&](size_t i) { return x[i] / y[i]; }); } u = a; u += u; ck("a += a", u, [&](size_t i) { return 2 * x[i]; }); u = a; u -= u; ck("a -= a", u, [&](size_t) { return 0; }); u = a; u *= u; ck("a *= a", u, [&](size_t i) { return x[i] * x[i]; });
    CHECK_EQ(a == b, x == y); CHECK_EQ(a != b, x != y); CHECK_EQ(a < b, x < y); CHECK_EQ(a > b, x > y); CHECK_EQ(a <= b, x <= y); CHECK_EQ(a >= b, x >= y); ll s = 0; for (ll v : x) s += v * v; CHECK_EQ((ll)a.abs2(), s); bool all = true; for (size_t i = 0; i < N; i++) all = all && x[i] && y[i]; c.nontrivial(all && x != y); c.label("equal", x == y);
}
template<size_t N> static void vdraw(pbt::Ctx& c, std::array<ll, N>& x, std::array<ll, N>& y) { ll m = c.pick<ll>({ 2, 50, 30000 }); for (auto& v : x) v = c.range(-m, m); if (c.chance(1, 3)) { y = x; if (c.coin()) y[c.below(N)] = c.range(-m, m); } else for (auto& v : y) v = c.range(-m, m); c.show("x", std::vector<ll>(x.begin(), x.end())); c.show("y", std::vector<ll>(y.begin(), y.end())); }
PROP(vectors, 280000, 7000000) {
    ll t = c.range(-30, 30); SHOW(t);
    switch (c.below(3)) {
    case 0: { typedef vector2d<ll> W; std::array<ll, 2> x, y, z; vdraw(c, x, y); for (auto& v : z) v = c.range(-100, 100); auto mkv = [](const std::array<ll, 2>& q) { return W(q[0], q[1]); }; vec_ops<W, std::function<ll(const W&, size_t)>, ll>(c, x, y, t, [](const W& v, size_t i) { return i ? v.y : v.x; }, mkv); const W a = mkv(x), b = mkv(y), d = mkv(z); auto cr = [](std::array<ll, 2> p, std::array<ll, 2> q) { return p[0] * q[1] - p[1] * q[0]; }; auto dt = [](std::array<ll, 2> p, std::array<ll, 2> q) { return p[0] * q[0] + p[1] * q[1]; }; auto df = [](std::array<ll, 2> p, std::array<ll, 2> q) { return std::array<ll, 2>{ p[0] - q[0], p[1] - q[1] }; }; CHECK_EQ(a & b, dt(x, y)); CHECK_EQ(a ^ b, cr(x, y)); CHECK_EQ(d.dot(a, b), dt(df(x, z), df(y, z))); CHECK_EQ(d.cross(a, b), cr(df(x, z), df(y, z))); CHECK(a.rot(b) == W(x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])); CHECK(a.irot(b) == W(dt(x, y), cr(y, x))); CHECK(a.rot(b).irot(b) == a * b.abs2()); CHECK(a.perp() == a.rot(W(0, 1))); CHECK_EQ(a.perp() & a, 0); CHECK_EQ(a.diff2(), x[0] * x[0] - x[1] * x[1]); break; }
    case 1: { typedef vector3d<ll> W; std::array<ll, 3> x, y, z; vdraw(c, x, y); for (auto& v : z) v = c.range(-100, 100); auto mkv = [](const std::array<ll, 3>& q) { return W(q[0], q[1], q[2]); }; vec_ops<W, std::function<ll(const W&, size_t)>, ll>(c, x, y, t, [](const W& v, size_t i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }, mkv); const W a = mkv(x), b = mkv(y), d = mkv(z); W n = a ^ b; CHECK(n == W(x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])); CHECK_EQ(a & b, x[0] * y[0] + x[1] * y[1] + x[2] * y[2]); W u = a; u ^= b; CHECK(u == n); u = a; u ^= u; CHECK(u == W()); CHECK_EQ(d.dot(a, b), (a - d) & (b - d)); CHECK(d.cross(a, b) == ((a - d) ^ (b - d))); CHECK(+a == a); CHECK(t * a == a * t); CHECK_EQ(n & a, 0); CHECK_EQ(n & b, 0); break; }
    default: { typedef vectorNd<ll, 5> W; std::array<ll, 5> x, y; vdraw(c, x, y); auto mkv = [](const std::array<ll, 5>& q) { W w; for (int i = 0; i < 5; i++) w[i] = q[i]; return w; }; vec_ops<W, std::function<ll(const W&, size_t)>, ll>(c, x, y, t, [](const W& v, size_t i) { return v[(int)i]; }, mkv); const W a = mkv(x), b = mkv(y); CHECK_EQ(a.size(), 5); int cm = x < y ? -1 : x > y ? 1 : 0; CHECK_EQ(a.cmp(b), cm); W u = a + t, v = a - t, i1{ x[0], x[1], x[2], x[3], x[4] }; u += 1; v -= 1; bool nz = true; for (ll q : y) nz = nz && q; for (int i = 0; i < 5; i++) { CHECK_EQ(u[i], x[i] + t + 1); CHECK_EQ(v[i], x[i] - t - 1); if (t) CHECK_EQ((a % t)[i], x[i] % t); if (nz) CHECK_EQ((a % b)[i], x[i] % y[i]); CHECK_EQ(W(t)[i], t); CHECK_EQ(W()[i], 0); CHECK_EQ(zeroOf(a)[i], 0); CHECK_EQ(identityOf(a)[i], 1); } CHECK(i1 == a); u = a; u.assign(&b.a[0]); CHECK(u == b); CHECK(W(a.a) == a); break; }
    }
}
PROP(vector_lengths, 1600000, 40000000) {
    double m = c.pick<double>({ 1, 100, 1e6 }); auto r = [&] { return (c.coin() ? 1 : -1) * c.real(0.01, 1) * m; }; typedef vector2d<double> D2; typedef vector3d<double> D3; D2 a(r(), r()), z2(7, 8); D3 b(r(), r(), r()), z3(7, 8, 9); D2 ua = a.unit(z2); D3 ub = b.unit(z3); CHECK(std::abs(ua.abs1() - 1) < 1e-9 && std::abs(ub.abs1() - 1) < 1e-9); CHECK(std::abs(a.abs1() - std::hypot(a.x, a.y)) < 1e-9 * m); CHECK(std::abs((ua ^ a)) < 1e-9 * m && (ua & a) > 0); CHECK((ub ^ b).abs1() < 1e-9 * m && (ub & b) > 0); CHECK(D2().unit(z2) == z2 && D3().unit(z3) == z3); struct E { double o2, o3; E() { o2 = D2::EPS; o3 = D3::EPS; } ~E() { D2::EPS = o2; D3::EPS = o3; } } guard; double eps = c.pick<double>({ 0.5, 1e-3 }); D2::EPS = D3::EPS = eps; double d[3]; for (double& q : d) q = c.pick<double>({ 0, 0.5, -0.5, 0.99, -0.99, 1.01, -1.01, 3 }) * eps; auto in = [&](double q) { return std::abs(q) <= eps; }; D2 p(0.25, -0.25), q(0.25 + d[0], -0.25 + d[1]); CHECK_EQ(p.near(q), in(d[0]) && in(d[1])); D3 s(0.25, -0.25, 0.125), w(0.25 + d[0], -0.25 + d[1], 0.125 + d[2]); CHECK_EQ(s.near(w), in(d[0]) && in(d[1]) && in(d[2])); c.nontrivial(m > 0);
}


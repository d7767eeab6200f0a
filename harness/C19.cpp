// C19: quadratic numbers, the projective line, Moebius transformations, nimbers, GF(2) words and symbolic terms.
#include "pbt.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/with_infinity.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/symbolic.h"
using namespace altruct::math;
typedef int64_t ll;
template<int P> using cmod = modulo<int, P, modulo_storage::CONSTANT>;
typedef modulo<int, 0, modulo_storage::INSTANCE> xmod;
// ---- quadratic numbers: pairs of residues or integers -----------------------------------------
typedef quadratic<ll, -1, quadratic_storage::CONSTANT> gauss; typedef quadratic<ll, 5, quadratic_storage::CONSTANT> q5; typedef quadratic<ll, 7, quadratic_storage::STATIC> qs; typedef quadraticX<ll> qx; typedef quadraticX<xmod> qm; typedef quadratic<cmod<1009>, 11, quadratic_storage::CONSTANT> qc;
struct Z2 { ll a, b; bool operator==(const Z2& o) const { return a == o.a && b == o.b; } };
static std::ostream& operator<<(std::ostream& o, const Z2& z) { return o << "(" << z.a << "," << z.b << ")"; }
static Z2 zadd(Z2 x, Z2 y) { return { x.a + y.a, x.b + y.b }; } static Z2 zsub(Z2 x, Z2 y) { return { x.a - y.a, x.b - y.b }; } static Z2 zmul(Z2 x, Z2 y, ll D) { return { x.a * y.a + x.b * y.b * D, x.a * y.b + x.b * y.a }; }
template<typename Q, typename MK> static void integral_quadratic(pbt::Ctx& c, ll D, MK mk) {
    auto g = [&](int m) { return Z2{ c.range(-m, m), c.range(-m, m) }; }; auto v = [](const Q& q) { return Z2{ q.a, q.b }; }; int m = c.pick<int>({ 3, 10, 1000 }); Z2 x = g(m), y = c.chance(1, 5) ? x : g(m), z = g(m); ll t = c.range(-m, m); SHOW(D); c.show("x", x); c.show("y", y); c.show("z", z); SHOW(t);
    const Q p = mk(x), q = mk(y), r = mk(z); CHECK_EQ(v(p + q), zadd(x, y)); CHECK_EQ(v(p - q), zsub(x, y)); CHECK_EQ(v(-p), zsub({ 0, 0 }, x)); CHECK_EQ(v(p * q), zmul(x, y, D)); CHECK_EQ(v(p * t), zmul(x, { t, 0 }, D)); CHECK_EQ(v(p.conjugate()), (Z2{ x.a, -x.b })); CHECK_EQ(p.norm(), x.a * x.a - D * x.b * x.b); CHECK_EQ(v(conjugateT<Q>::of(p)), (Z2{ x.a, -x.b })); CHECK_EQ((ll)(p * q).D(), D); CHECK_EQ((ll)(-p).D(), D); CHECK_EQ((ll)(p.conjugate() + q).D(), D);
    Q s = p; s += q; CHECK_EQ(v(s), zadd(x, y)); s = p; s -= q; CHECK_EQ(v(s), zsub(x, y)); s = p; s *= q; CHECK_EQ(v(s), zmul(x, y, D)); s = p; s *= s; CHECK_EQ(v(s), zmul(x, x, D)); s = p; s += s; CHECK_EQ(v(s), zadd(x, x)); s = p; s -= s; CHECK_EQ(v(s), (Z2{ 0, 0 })); s = p; s *= t; CHECK_EQ(v(s), zmul(x, { t, 0 }, D)); if (t) { CHECK_EQ(v(p * t / t), x); s = p; s /= t; CHECK_EQ(v(s), (Z2{ x.a / t, x.b / t })); }
    CHECK_EQ(p == q, x == y); CHECK_EQ(p != q, !(x == y)); bool lt = std::make_pair(x.a, x.b) < std::make_pair(y.a, y.b), gt = std::make_pair(y.a, y.b) < std::make_pair(x.a, x.b); CHECK_EQ(p < q, lt); CHECK_EQ(p > q, gt); CHECK_EQ(p <= q, !gt); CHECK_EQ(p >= q, !lt);
    ll n = q.norm(); if (n) { Q e = p * q; CHECK_EQ(v(e / q), x); CHECK_EQ(v(e % q), (Z2{ 0, 0 })); Q qu = p / q, re = p % q; CHECK_EQ(v(q * qu + re), x); s = p; s /= q; CHECK_EQ(v(s), v(qu)); s = p; s %= q; CHECK_EQ(v(s), v(re)); Z2 w = zmul(x, { y.a, -y.b }, D); /* each component of the exact quotient, rounded towards zero */ CHECK_EQ(v(qu), (Z2{ w.a / n, w.b / n })); s = q; s /= s; CHECK_EQ(v(s), (Z2{ 1, 0 })); }
    CHECK_EQ(v(zeroOf(p)), (Z2{ 0, 0 })); CHECK_EQ(v(identityOf(p)), (Z2{ 1, 0 })); CHECK_EQ((ll)identityOf(p).D(), D); CHECK_EQ(v(castOf(p, t)), (Z2{ t, 0 })); CHECK_EQ((ll)castOf(p, t).D(), D); CHECK_EQ(v(castOf<Q>(p)), x); if (m < 1000) { int k = (int)c.below(m == 3 ? 12 : 7); Z2 w{ 1, 0 }; for (int i = 0; i < k; i++) w = zmul(w, x, D); if (std::llabs(D) <= 11) CHECK_EQ(v(powT(p, k)), w); }
    c.nontrivial(x.b != 0 && y.b != 0 && x.a != 0); c.label("divisor with norm", n != 0 && std::llabs(n) > 1);
}
PROP(quadratic_integers, 3500000, 87500000) {
    switch (c.below(4)) { case 0: integral_quadratic<gauss>(c, -1, [](Z2 z) { return gauss(z.a, z.b); }); break; case 1: integral_quadratic<q5>(c, 5, [](Z2 z) { return q5(z.a, z.b); }); break; case 2: { ll D = c.range(-20, 20); qs::D() = D; integral_quadratic<qs>(c, D, [](Z2 z) { return qs(z.a, z.b); }); break; } default: { ll D = c.range(-20, 20); integral_quadratic<qx>(c, D, [D](Z2 z) { return qx(z.a, z.b, D); }); } }
}
// over a field the quotient is exact
PROP(quadratic_fields, 2300000, 57500000) {
    if (c.coin()) {
        int p = c.pick<int>({ 3, 7, 101, 1009 }), D = (int)c.below(p); auto mk = [&](int a, int b) { return qm(xmod(a, p), xmod(b, p), xmod(D, p)); }; int xa = (int)c.below(p), xb = (int)c.below(p), ya = (int)c.below(p), yb = (int)c.below(p); SHOW(p); SHOW(D); SHOW(xa); SHOW(xb); SHOW(ya); SHOW(yb); const qm x = mk(xa, xb), y = mk(ya, yb); qm m = x * y; CHECK_EQ((int)m.a.v, (int)((ll(xa) * ya + ll(xb) * yb % p * D) % p)); CHECK_EQ((int)m.b.v, (int)((ll(xa) * yb + ll(xb) * ya) % p)); CHECK_EQ(m.a.M(), p); CHECK_EQ(m.b.M(), p); int nn = (int)(((ll(ya) * ya - ll(yb) * yb % p * D) % p + p) % p); CHECK_EQ((int)y.norm().v, nn); if (nn) { CHECK(m / y == x); CHECK((x / y) * y == x); CHECK(x % y == zeroOf(x)); CHECK(y / y == identityOf(y)); } CHECK_EQ((int)zeroOf(x).D().v, D); CHECK_EQ(zeroOf(x).a.M(), p); CHECK_EQ((int)identityOf(x).a.v, 1); ll k = c.range(0, 1000000); qm w = identityOf(x), b = x; for (ll e = k; e; e >>= 1) { if (e & 1) w = mk((int)((ll(w.a.v) * b.a.v + ll(w.b.v) * b.b.v % p * D) % p), (int)((ll(w.a.v) * b.b.v + ll(w.b.v) * b.a.v) % p)); b = mk((int)((ll(b.a.v) * b.a.v + ll(b.b.v) * b.b.v % p * D) % p), (int)(2 * ll(b.a.v) * b.b.v % p)); } CHECK(powT(x, k) == w); c.nontrivial(xb && yb && nn);
    } else { typedef quadratic<fraction<ll>, 3, quadratic_storage::CONSTANT> Q; auto f = [&] { return fraction<ll>(c.range(-30, 30), c.range(1, 12)); }; const Q x(f(), f()), y(f(), f()); CHECK(x + y - y == x); CHECK(x * y == y * x); CHECK(x * (x + y) == x * x + x * y); CHECK((x * y).a == x.a * y.a + x.b * y.b * fraction<ll>(3)); CHECK((x * y).b == x.a * y.b + x.b * y.a); if (y.a != 0 || y.b != 0) { CHECK(x / y * y == x); CHECK(x % y == zeroOf(x)); } CHECK(Q(2) == Q(fraction<ll>(2))); c.nontrivial(x.b != 0 && y.b != 0); }
}
// ---- the projective line ---------------------------------------------------------------------
template<typename F> struct PW { bool inf; F v; };
template<typename F, typename G> static void projective(pbt::Ctx& c, G gen) {
    typedef with_infinity<F> W; F a = c.chance(1, 5) ? F(0) : gen(), b = c.chance(1, 5) ? F(0) : gen(); bool ia = c.chance(1, 4), ib = c.chance(1, 4); const W x(a, ia ? (c.coin() ? 1 : 2) : 0), y(b, ib); const F zero = zeroOf(a); bool za = a == zero && !ia, zb = b == zero && !ib; c.show("kinds", std::make_pair((int)ia, (int)ib)); c.show("zeros", std::make_pair((int)za, (int)zb));
    auto is = [&](const W& w, bool inf, const F& v) { CHECK_MSG((w.is_inf != 0) == inf, (inf ? "finite instead of infinite" : "infinite instead of finite")); CHECK_EQ(infinityT<W>::is(w), inf); if (!inf) CHECK(w.v == v); };
    W t; is(x + y, ia || ib, a + b); t = x; t += y; is(t, ia || ib, a + b); if (!(ia && ib)) { is(x - y, ia || ib, a - b); t = x; t -= y; is(t, ia || ib, a - b); } if (!(za && ib) && !(ia && zb)) { is(x * y, ia || ib, a * b); t = x; t *= y; is(t, ia || ib, a * b); } if (!(za && zb) && !(ia && ib)) { F q = ib || zb || ia ? zero : a / b; is(x / y, ia || zb, q); t = x; t /= y; is(t, ia || zb, q); } is(-x, ia, -a); is(x.inverse(), za, ia || za ? zero : identityOf(a) / a); is(x, ia, a); if (!ia && !ib && !zb) is(x % y, false, a % b); t = x; t += t; is(t, ia, a + a); t = x; t *= t; is(t, ia, a * a);
    is(zeroOf(x), false, zero); is(identityOf(x), false, identityOf(a)); is(conjugateT<W>::of(x), ia, conjugateT<F>::of(a)); is(castOf<W>(x), ia, a); is(castOf(y, x), ia, a); is(W(a), false, a); is(W(), false, zero);
    CHECK(x == W(x) && !(x != W(x))); if (!ia && !ib) { CHECK_EQ(x == y, a == b); CHECK_EQ(x < y, a < b); CHECK_EQ(x >= y, !(a < b)); CHECK_EQ(x > y, b < a); CHECK_EQ(x <= y, !(b < a)); CHECK_EQ(x != y, a != b); } if (ia && !ib) CHECK(x != y && x > y && x >= y && !(x < y) && !(x <= y)); c.nontrivial(ia || ib || (a != zero && b != zero)); c.label("infinite", ia || ib);
}
PROP(projective_lines, 2700000, 67500000) { switch (c.below(3)) { case 0: { typedef cmod<1009> M; projective<M>(c, [&] { return M((int)c.below(1009)); }); break; } case 1: { typedef fraction<ll> M; projective<M>(c, [&] { return M(c.range(-99, 99), c.range(1, 99)); }); break; } default: { typedef altruct::math::complex<cmod<1019>> M; projective<M>(c, [&] { return M(cmod<1019>((int)c.below(1019)), cmod<1019>((int)c.below(1019))); }); } } }
// ---- Moebius transformations against pairs of homogeneous coordinates --------------------------
template<typename F, typename G> static void moebius(pbt::Ctx& c, G gen) {
    typedef with_infinity<F> W; typedef moebius_tr<W> M; const F o(0), e = identityOf(gen()); struct H { F x, y; };
    auto cj = [&](const F& f, int s) { return s < 0 ? conjugateT<F>::of(f) : f; };
    struct Raw { F a, b, cc, d; int s; };
    auto draw = [&] { Raw r; do { auto k = [&] { return c.chance(1, 4) ? o : c.chance(1, 4) ? e : gen(); }; r = Raw{ k(), k(), k(), k(), c.coin() ? 1 : -1 }; if (r.a * r.d == r.b * r.cc) { r.a = e; r.b = o; r.cc = o; r.d = e; } } while (r.a * r.d == r.b * r.cc); return r; };
    auto apply = [&](const Raw& r, const H& h) { F x = cj(h.x, r.s), y = cj(h.y, r.s); return H{ r.a * x + r.b * y, r.cc * x + r.d * y }; };
    auto mk = [&](const Raw& r) { return M(W(r.a), W(r.b), W(r.cc), W(r.d), r.s); }; auto same = [&](const W& w, const H& h) { return w.is_inf ? h.y == o : !(h.y == o) && w.v * h.y == h.x; }; auto toW = [&](const H& h) { return h.y == o ? W(gen(), 1) : W(h.x / h.y); };
    Raw p = draw(), q = draw(); H z{ c.chance(1, 5) ? o : gen(), c.chance(1, 5) ? o : e }; if (z.x == o && z.y == o) z.x = e; if (c.chance(1, 4)) { /* the pole of p */ z = H{ cj(o - p.d, p.s), cj(p.cc, p.s) }; } const M f = mk(p), g = mk(q); W w = toW(z); c.label("pole", apply(p, z).y == o); c.label("at infinity", z.y == o); c.label("anti", p.s < 0 || q.s < 0); c.nontrivial(!(p.cc == o));
    CHECK_MSG(same(f(w), apply(p, z)), "f(z)"); H gz = apply(q, z); CHECK_MSG(same((f * g)(w), apply(p, gz)), "(f g)(z)"); CHECK_MSG(same(f(toW(gz)), apply(p, gz)), "f(g(z))"); CHECK_EQ((f * g).s, p.s * q.s); M t = f; t *= g; CHECK(t == f * g); t = f; t *= t; CHECK_MSG(same(t(w), apply(p, apply(p, z))), "f(f(z)) in place");
    M fi = f.inverse(), gi = g.inverse(); CHECK_EQ(fi.s, p.s); CHECK_MSG(same(fi(f(w)), z), "inverse after f"); CHECK_MSG(same(f(fi(w)), z), "f after inverse"); CHECK_MSG(same((f * fi)(w), z) && same((fi * f)(w), z), "product with the inverse"); t = f; t /= g; CHECK(t == f / g); CHECK_MSG(same((f / g)(toW(gz)), apply(p, z)), "(f / g)(g(z))"); t = f; t /= t; CHECK_MSG(same(t(w), z), "f / f");
    M n = f; CHECK_EQ(&n.normalize(), &n); CHECK_MSG(same(n(w), apply(p, z)), "normalised"); CHECK_EQ(n.s, p.s); CHECK(n.a == W(e) || (n.a == W(o) && n.b == W(e))); F sc = gen(); if (!(sc == o)) { M m2 = mk(Raw{ p.a * sc, p.b * sc, p.cc * sc, p.d * sc, p.s }); m2.normalize(); CHECK_MSG(m2 == n, "proportional coefficients normalise differently"); }
    M id = identityOf(f); CHECK_MSG(same(id(w), z), "identity"); CHECK(id * f == f); CHECK(f * id == f); F k = gen(); auto st = [&](const M& m, const Raw& r) { CHECK_MSG(same(m(w), apply(r, z)), "named transformation"); }; if (!(k == o)) { st(M::scaling(W(k)), Raw{ k, o, o, e, 1 }); st(M::rotation(W(k)), Raw{ k, o, o, e, 1 }); st(M(W(k)), Raw{ k, o, o, e, 1 }); } st(M::translation(W(k)), Raw{ e, k, o, e, 1 }); st(M::flip_x(), Raw{ o - e, o, o, e, -1 }); st(M::flip_y(), Raw{ e, o, o, e, -1 }); st(M::inversion(), Raw{ o, e, e, o, -1 });
    auto key = [&](const M& m) { return std::make_tuple(m.a.v, m.b.v, m.c.v, m.d.v, m.s); }; Raw q2 = q; if (c.coin()) { q2 = p; switch (c.below(5)) { case 0: q2.a = gen(); break; case 1: q2.b = gen(); break; case 2: q2.cc = gen(); break; case 3: q2.d = gen(); break; default: q2.s = -q2.s; } } M h = mk(q2); bool lt = key(f) < key(h), gt = key(h) < key(f); CHECK_EQ(f < h, lt); CHECK_EQ(f > h, gt); CHECK_EQ(f <= h, !gt); CHECK_EQ(f >= h, !lt); CHECK_EQ(f == h, !lt && !gt); CHECK_EQ(f != h, lt || gt);
}
template<int P> static void moebius_c(pbt::Ctx& c) { typedef cmod<P> M; typedef altruct::math::complex<M> F; moebius<F>(c, [&] { return F(M((int)c.below(P)), M((int)c.below(P))); }); }
PROP(moebius_transformations, 1200000, 30000000) { switch (c.below(4)) { case 0: moebius_c<1019>(c); break; case 1: moebius_c<7>(c); break; case 2: moebius_c<3>(c); break; default: { typedef cmod<31> M; moebius<M>(c, [&] { return M((int)c.below(31)); }); } } }
// ---- nimbers -----------------------------------------------------------------------------------
static const std::vector<std::vector<int>>& mex_table() { static std::vector<std::vector<int>> t; if (t.empty()) { const int N = 48; t.assign(N, std::vector<int>(N)); for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { std::vector<char> s(1024); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) s[t[i][b] ^ t[a][j] ^ t[i][j]] = 1; int m = 0; while (s[m]) m++; t[a][b] = m; } } return t; }
// independent multiplication: (ah F + al)(bh F + bl), F^2 = F + F/2, F = 2^(2^k)
static uint64_t nmul(uint64_t a, uint64_t b, int k) { if (a < 2 || b < 2) return a * b; int h = 1 << (k - 1); uint64_t m = (uint64_t(1) << h) - 1, ah = a >> h, al = a & m, bh = b >> h, bl = b & m; uint64_t hh = nmul(ah, bh, k - 1), hl = nmul(ah, bl, k - 1), lh = nmul(al, bh, k - 1), l = nmul(al, bl, k - 1); return ((hh ^ hl ^ lh) << h) ^ l ^ nmul(hh, uint64_t(1) << (h - 1), k - 1); }
template<typename I, int K, int BITS> static void nim(pbt::Ctx& c) {
    typedef nimber<I, BITS> N; typedef typename std::make_unsigned<I>::type U; const uint64_t mask = BITS == 64 ? ~uint64_t(0) : (uint64_t(1) << BITS) - 1; auto gen = [&] { uint64_t v = c.chance(1, 4) ? c.below(16) : c.chance(1, 4) ? uint64_t(1) << c.below(BITS) : c.chance(1, 4) ? c.below(65536) : (uint64_t)c.any<int64_t>(); return (U)(v & mask); };
    U a = gen(), b = c.chance(1, 8) ? a : gen(), d = gen(); SHOW((uint64_t)a); c.show("b", (uint64_t)b); c.show("d", (uint64_t)d); const N x(a), y(b), z(d); auto R = [&](uint64_t p, uint64_t q) { return (U)nmul(p, q, K); };
    CHECK_EQ((uint64_t)(x + y).v, (uint64_t)(a ^ b)); CHECK_EQ((uint64_t)(x - y).v, (uint64_t)(a ^ b)); CHECK_EQ((uint64_t)(-x).v, (uint64_t)a); CHECK_EQ((uint64_t)(x * y).v, (uint64_t)R(a, b)); CHECK_EQ((uint64_t)N::mul2(x, y).v, (uint64_t)R(a, b)); CHECK_EQ((uint64_t)N::mul(a, b), (uint64_t)R(a, b)); CHECK((x * y) * z == x * (y * z)); CHECK(x * (y + z) == x * y + x * z); N t = x; t += y; CHECK(t == x + y); t = x; t -= y; CHECK(t == x - y); t = x; t *= y; CHECK(t == x * y); t = x; t *= t; CHECK(t == x * x); t = x; t += t; CHECK(t == N(0));
    N s = x.sqrt(); CHECK_EQ((uint64_t)R(s.v, s.v), (uint64_t)a); if (b) { N i = y.inverse(); CHECK_EQ((uint64_t)R(b, i.v), (uint64_t)1); CHECK(x / y * y == x); CHECK_EQ((uint64_t)(x * y / y).v, (uint64_t)a); CHECK(x % y == N(0)); t = x; t /= y; CHECK(t == x / y); t = y; t /= t; CHECK(t == N(1)); }
    if (a < 48 && b < 48) CHECK_EQ((int)(x * y).v, mex_table()[a][b]); CHECK_EQ(x < y, a < b); CHECK_EQ(x > y, a > b); CHECK_EQ(x <= y, a <= b); CHECK_EQ(x >= y, a >= b); CHECK_EQ(x == y, a == b); CHECK_EQ(x != y, a != b); int lv = 0; while ((uint64_t)a >> (1 << lv) && lv < 6) lv++; if (a >= 2) CHECK_EQ(x.level(), lv); int m = (int)c.below(BITS), n = (int)c.below(BITS); CHECK_EQ((uint64_t)N::mul_pow2(m, n), (uint64_t)R(uint64_t(1) << m, uint64_t(1) << n)); CHECK_EQ((uint64_t)N::mul_pow2_impl(m, n), (uint64_t)R(uint64_t(1) << m, uint64_t(1) << n)); for (int k = 0; k < K; k++) if (k < 6 && (1 << k) < (int)sizeof(U) * 8) CHECK_EQ((uint64_t)N::join(x.high(k), x.low(k), k).v, (uint64_t)a); if (K > 0) { int k = (int)c.range(1, K); U w = k == 6 ? a : (U)(a & ((uint64_t(1) << (1 << k)) - 1)); CHECK_EQ((uint64_t)N::lift(N(w), k).v, (uint64_t)R(w, uint64_t(1) << ((1 << k) - 1))); } c.nontrivial(a > 3 && b > 3); c.label("in the mex table", a < 48 && b < 48);
}
PROP(nimbers, 140000, 3500000) { switch (c.below(7)) { case 0: nim<uint8_t, 3, 8>(c); break; case 1: nim<int16_t, 4, 16>(c); break; case 2: nim<int32_t, 5, 32>(c); break; case 3: nim<uint32_t, 5, 32>(c); break; case 4: nim<int64_t, 6, 64>(c); break; case 5: nim<uint64_t, 6, 64>(c); break; default: nim<uint64_t, 5, 32>(c); } { nimber<int> n(5); CHECK(identityOf(n) == nimber<int>(1)); CHECK(zeroOf(n) == nimber<int>(0)); int e = (int)c.below(20); unsigned v = (unsigned)c.any<int32_t>(); nimber<int> r(1); for (int i = 0; i < e; i++) r = (unsigned)nmul(r.v, v, 5); CHECK(powT(nimber<int>(v), e) == r); } }
// ---- words of elements of GF(2) ------------------------------------------------------------------
template<typename I> static void gf2(pbt::Ctx& c) { typedef galois_field_2<I> G; I a = c.any<I>(), b = c.any<I>(); c.show("a", (uint64_t)a); c.show("b", (uint64_t)b); const G x(a), y(b); G q = x / y, t = x; const int B = sizeof(I) * 8; auto bit = [](I v, int i) { return (int)((uint64_t)v >> i) & 1; }; G s = x + y, d = x - y, p = x * y, n = -x; t += y; CHECK(t == s); t = x; t -= y; CHECK(t == d); t = x; t *= y; CHECK(t == p); t = x; t /= y; CHECK(t == q); t = x; t += t; CHECK(t == zeroOf(x)); t = x; t *= t; CHECK(t == x); for (int i = 0; i < B; i++) { int u = bit(a, i), w = bit(b, i); CHECK_EQ(bit(s.v, i), (u + w) % 2); CHECK_EQ(bit(d.v, i), (u + w) % 2); CHECK_EQ(bit(p.v, i), u * w); CHECK_EQ(bit(n.v, i), u); if (w) CHECK_EQ(bit(q.v, i), u); CHECK_EQ(bit(identityOf(x).v, i), 1); CHECK_EQ(bit(zeroOf(x).v, i), 0); } CHECK_EQ(x == y, a == b); CHECK_EQ(x != y, a != b); CHECK_EQ(x < y, a < b); CHECK_EQ(x > y, a > b); CHECK_EQ(x <= y, a <= b); CHECK_EQ(x >= y, a >= b); c.nontrivial(a != 0 && b != 0 && a != b); }
PROP(gf2_words, 1500000, 37500000) { switch (c.below(4)) { case 0: gf2<uint8_t>(c); break; case 1: gf2<uint16_t>(c); break; case 2: gf2<uint32_t>(c); break; default: gf2<uint64_t>(c); } }
// ---- symbolic terms ------------------------------------------------------------------------------
static symbolic term(pbt::Ctx& c, int depth, std::string& e) {
    if (depth == 0 || c.chance(1, 5)) { if (c.coin()) { int v = (int)c.range(-99, 99); e = std::to_string(v); return c.coin() ? symbolic(v) : castOf<symbolic>(v); } e = c.str(1, 3, "xyz_"); return symbolic(e); }
    std::string l, r; int op = (int)c.below(16); if (op < 4) { symbolic x = term(c, depth - 1, l); switch (op) { case 0: e = "(+" + l + ")"; return +x; case 1: e = "(-" + l + ")"; return -x; case 2: e = "(~" + l + ")"; return ~x; default: e = "(!" + l + ")"; return !x; } }
    symbolic x = term(c, depth - 1, l), y = c.chance(1, 6) ? (r = l, x) : term(c, depth - 1, r); bool in = c.coin(); static const char* ops[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||" }; e = "(" + l + ops[op - 4] + r + ")"; symbolic t = x; 
    switch (op - 4) { case 0: if (in) { t += y; return t; } return x + y; case 1: if (in) { t -= y; return t; } return x - y; case 2: if (in) { t *= y; return t; } return x * y; case 3: if (in) { t /= y; return t; } return x / y; case 4: if (in) { t %= y; return t; } return x % y; case 5: if (in) { t &= y; return t; } return x & y; case 6: if (in) { t |= y; return t; } return x | y; case 7: if (in) { t ^= y; return t; } return x ^ y; case 8: if (in) { t <<= y; return t; } return x << y; case 9: if (in) { t >>= y; return t; } return x >> y; case 10: return x && y; default: return x || y; }
}
PROP(symbolic_terms, 1300000, 32500000) { std::string e; symbolic s = term(c, (int)c.range(0, 5), e); SHOW(e); CHECK_EQ(s.v, e); CHECK_EQ(zeroOf(s).v, std::string("0")); CHECK_EQ(identityOf(s).v, std::string("1")); CHECK_EQ(castOf<symbolic>(s).v, e); CHECK_EQ(castOf(s, 7).v, std::string("7")); symbolic t = s; t *= t; CHECK_EQ(t.v, "(" + e + "*" + e + ")"); c.nontrivial(e.size() > 6); }
// ---- numbers as elements of the structures ------------------------------------------------------
template<class T> static void embeds(pbt::Ctx& c, int n, int m) { // castOf is a homomorphism onto the copy of the numbers
    T a = castOf<T>(n), b = castOf<T>(m); T r = a; CHECK(castOf(r, n) == a); CHECK(castOf(r, m) == b); CHECK(castOf<T>(n * m) == a * b); CHECK(castOf<T>(0) == zeroOf(a)); CHECK(castOf<T>(1) == identityOf(a)); CHECK(castOf<T>(a) == a && castOf(b, a) == a); (void)c; }
template<class T> static void embeds_ring(pbt::Ctx& c, int n, int m) { embeds<T>(c, n, m); T a = castOf<T>(n), b = castOf<T>(m); CHECK(castOf<T>(n + m) == a + b); CHECK(castOf<T>(n - m) == a - b); CHECK(castOf<T>(-n) == -a); }
PROP(casts, 8300000, 207500000) {
    typedef cmod<1009> F; typedef with_infinity<F> W; typedef moebius_tr<W> M; int n = (int)c.range(-2000, 2000), m = (int)c.range(-2000, 2000); if (c.chance(1, 5)) n = 0; SHOW(n); SHOW(m); F f(n), g(m); const F o(0), e(1);
    auto q = castOf<quadratic<F, 3, quadratic_storage::CONSTANT>>(n); CHECK(q.a == f && q.b == o); embeds_ring<quadratic<F, 3, quadratic_storage::CONSTANT>>(c, n, m); embeds_ring<quadratic<ll, -5, quadratic_storage::CONSTANT>>(c, n, m); embeds_ring<altruct::math::complex<F>>(c, n, m); embeds_ring<altruct::math::complex<ll>>(c, n, m); embeds_ring<F>(c, n, m); embeds_ring<fraction<ll>>(c, n, m); embeds_ring<W>(c, n, m);
    W w = castOf<W>(n); CHECK(w.v == f && !w.is_inf); W u(g, 1); CHECK(castOf(u, n) == w); M t = castOf<M>(n); CHECK(t == M(W(f), W(o), W(o), W(e))); CHECK(castOf(M(W(g), W(e), W(e), W(o), -1), n) == t); CHECK(M(n) == t && M(w) == t && M() == M(W(o))); if (!(f == o)) CHECK(t(W(g)) == W(f * g)); CHECK(castOf<M>(1) == identityOf(t)); c.nontrivial(n != 0 && m != 0 && n != m);
}

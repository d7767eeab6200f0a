// C20: see C20.h
#include "C20.h"
// one operand: scalars, reverse, dual, norms, constructors from a part
template<typename B> static void only(pbt::Ctx& c) {
    MV x = draw<B>(c), y = draw<B>(c); ll k = coef(c); c.show("b", str(x)); c.show("k", k); const B b = mk<B>::of(x), d = mk<B>::of(y); SAME("-b", -b, neg(x)); SAME("~b", ~b, rev(x)); SAME("rev", b.rev(), rev(x)); SAME("!b", !b, dual(x)); SAME("!!b", !!b, x); SAME("b * k", b * f(k), scale(x, k)); SAME("k * b", f(k) * b, scale(x, k)); B t = b; t += d; SAME("+=", t, add(x, y)); t = b; t -= d; SAME("-=", t, add(x, neg(y))); t = b; t *= f(k); SAME("*=", t, scale(x, k)); t = b; t += t; SAME("b += b", t, scale(x, 2)); t = b; t -= t; SAME("b -= b", t, MV{}); if (k) { SAME("b / k", b / f(k), scale(x, minv(k))); t = b; t /= f(k); SAME("/=", t, scale(x, minv(k))); }
    SAME("b + b", b + d, add(x, y)); SAME("b - b", b - d, add(x, neg(y))); ll inf = 0; for (int i = 1; i < 16; i += 2) inf = md(inf + x[i] * x[i]); CHECK_EQ(g(b.norm2()), geo(x, rev(x))[0]); CHECK_EQ(g(b.ninf2()), inf); CHECK_EQ(g(b.diff2()), geo(x, x)[0]); SAME("b", b, x); c.nontrivial(x != MV{} && k != 0);
}
PROP(pga_unary, 220000, 5500000) { switch (c.below(14)) { case 0: only<p::blade0<F>>(c); break; case 1: only<p::blade1<F>>(c); break; case 2: only<p::blade2E<F>>(c); break; case 3: only<p::blade2e<F>>(c); break; case 4: only<p::blade3<F>>(c); break; case 5: only<p::blade4<F>>(c); break; case 6: only<p::blade02E<F>>(c); break; case 7: only<p::blade02e<F>>(c); break; case 8: only<p::blade22<F>>(c); break; case 9: only<p::blade2E4<F>>(c); break; case 10: only<p::blade2e4<F>>(c); break; case 11: only<p::blade024<F>>(c); break; case 12: only<p::blade13<F>>(c); break; default: only<p::multivector<F>>(c); } }
template<typename B> static void inverse(pbt::Ctx& c) { MV x = draw<B>(c), one{}; one[0] = 1; c.show("b", str(x)); c.assume(geo(x, rev(x))[0] != 0); const B b = mk<B>::of(x); SAME("b * b.inv()", b * b.inv(), one); SAME("b.inv() * b", b.inv() * b, one); MV i = mv(b.inv()); CHECK_MSG(geo(x, i) == one, "inverse " << str(i)); int n = 0; for (ll v : x) n += v != 0; c.nontrivial(n > 2); }
PROP(pga_inverse, 240000, 6000000) { switch (c.below(8)) { case 0: inverse<p::blade0<F>>(c); break; case 1: inverse<p::blade1<F>>(c); break; case 2: inverse<p::blade2E<F>>(c); break; case 3: inverse<p::blade3<F>>(c); break; case 4: inverse<p::blade02E<F>>(c); break; case 5: inverse<p::blade02e<F>>(c); break; case 6: inverse<p::blade024<F>>(c); break; default: if (c.coin()) inverse<p::blade13<F>>(c); else inverse<p::blade2E4<F>>(c); } }
// constructors that promote a part, and the accessors that take one back out
PROP(pga_conversions, 100000, 2500000) {
    MV x = draw<p::multivector<F>>(c); c.show("m", str(x)); auto part = [&](int mask) { MV r{}; for (int i = 0; i < 16; i++) if (mask >> i & 1) r[i] = x[i]; return r; };
#define PROMOTE(B, L) SAME(#B "(" #L ")", p::B<F>(mk<p::L<F>>::of(x)), part(mk<p::L<F>>::M))
    PROMOTE(blade02E, blade0); PROMOTE(blade02E, blade2E); PROMOTE(blade02e, blade0); PROMOTE(blade02e, blade2e); PROMOTE(blade22, blade2E); PROMOTE(blade22, blade2e); PROMOTE(blade2E4, blade2E); PROMOTE(blade2E4, blade4); PROMOTE(blade2e4, blade2e); PROMOTE(blade2e4, blade4); PROMOTE(blade024, blade0); PROMOTE(blade024, blade2E); PROMOTE(blade024, blade2e); PROMOTE(blade024, blade4); PROMOTE(blade024, blade02e); PROMOTE(blade024, blade22); PROMOTE(blade024, blade2E4); PROMOTE(blade024, blade02E); PROMOTE(blade024, blade2e4); PROMOTE(blade13, blade1); PROMOTE(blade13, blade3); PROMOTE(multivector, blade024); PROMOTE(multivector, blade13);
    auto b0 = mk<p::blade0<F>>::of(x); auto b1 = mk<p::blade1<F>>::of(x); auto bE = mk<p::blade2E<F>>::of(x); auto be = mk<p::blade2e<F>>::of(x); auto b3 = mk<p::blade3<F>>::of(x); auto b4 = mk<p::blade4<F>>::of(x); SAME("multivector of six", p::multivector<F>(b0, b1, bE, be, b3, b4), x); SAME("multivector of six, by duality", p::multivector<F>(b1, b0, bE, be, b4, b3), x); SAME("multivector of four", p::multivector<F>(b1, mk<p::blade02E<F>>::of(x), mk<p::blade2e4<F>>::of(x), b3), x); SAME("b1(e0)", p::blade1<F>(f(x[1])), part(2)); SAME("b1(v)", p::blade1<F>(v3(x[2], x[4], x[8])), part(1 << 2 | 1 << 4 | 1 << 8)); SAME("b3(e123)", p::blade3<F>(f(x[14])), part(1 << 14)); SAME("b3(triP)", p::blade3<F>(v3(-x[13], x[11], -x[7])), part(1 << 13 | 1 << 11 | 1 << 7));
    auto m = mk<p::multivector<F>>::of(x); typedef p::get<p::multivector<F>> G; SAME("get b0", G::b0(m), part(1)); SAME("get b1", G::b1(m), part(mk<p::blade1<F>>::M)); SAME("get b2E", G::b2E(m), part(mk<p::blade2E<F>>::M)); SAME("get b2e", G::b2e(m), part(mk<p::blade2e<F>>::M)); SAME("get b3", G::b3(m), part(mk<p::blade3<F>>::M)); SAME("get b4", G::b4(m), part(mk<p::blade4<F>>::M)); c.nontrivial(x != MV{});
}
// the geometry these elements stand for, computed with plain coordinates
typedef std::array<ll, 3> T3;
static T3 a3(const T3& x, const T3& y, ll k = 1) { return { md(x[0] + k * y[0]), md(x[1] + k * y[1]), md(x[2] + k * y[2]) }; }
static T3 s3(const T3& x, ll k) { return { md(x[0] * md(k)), md(x[1] * md(k)), md(x[2] * md(k)) }; }
static ll d3(const T3& x, const T3& y) { return md(x[0] * y[0] % P + x[1] * y[1] % P + x[2] * y[2] % P); }
static T3 x3(const T3& x, const T3& y) { return { md(x[1] * y[2] - x[2] * y[1]), md(x[2] * y[0] - x[0] * y[2]), md(x[0] * y[1] - x[1] * y[0]) }; }
static V3 tv(const T3& x) { return v3(x[0], x[1], x[2]); }
PROP(pga_geometry, 110000, 2750000) {
    auto r3 = [&] { return T3{ coef(c), coef(c), coef(c) }; }; auto sh = [&](const char* n, const T3& t) { c.show(n, std::vector<ll>(t.begin(), t.end())); }; T3 A = r3(), B = r3(), C = r3(), n1 = r3(), n2 = r3(), n3 = r3(), t = r3(); ll d = coef(c), h = coef(c); sh("A", A); sh("B", B); sh("C", C); sh("n1", n1); sh("n2", n2); sh("n3", n3); sh("t", t); SHOW(d); SHOW(h);
    auto pt = [&](const T3& X, ll w = 1) { return mv(p::point<F>(tv(s3(X, w)), f(w))); }; auto pl = [&](const T3& n, ll e) { return mv(p::plane<F>(tv(n), f(e))); }; auto ln = [&](const T3& l, const T3& X) { return mv(p::line<F>(tv(l), tv(X))); };
    auto pA = p::point<F>(tv(A)), pB = p::point<F>(tv(B)), pC = p::point<F>(tv(C)); auto q1 = p::plane<F>(tv(n1), f(d3(n1, A))), q2 = p::plane<F>(tv(n2), f(d3(n2, A))), q3 = p::plane<F>(tv(n3), f(d3(n3, A))); SAME("point(P) and point(P, 1)", pA, pt(A, 1));
    ll det = d3(n1, x3(n2, n3)); SAME("three planes meet in their common point", q1 ^ q2 ^ q3, pt(A, det)); SAME("two planes meet in a line", q1 ^ q2, ln(x3(n1, n2), A)); SAME("two points join in a line", pA | pB, ln(a3(A, B, -1), A)); T3 nn = x3(a3(A, B, -1), a3(C, A, -1)); SAME("three points join in a plane", pA | pB | pC, pl(nn, d3(nn, A))); auto lAB = pA | pB; T3 dir = a3(A, B, -1); ll off = md(d - 0); auto Q = p::plane<F>(tv(n3), f(off)); /* A + s dir with n3.(A + s dir) = d */ ll den = d3(n3, dir); T3 X = a3(s3(A, den), s3(dir, md(off - d3(n3, A)))); { MV m = mv(lAB ^ Q), e{}; MV e1 = mv(p::point<F>(tv(X), f(den))); bool ok = m == e1 || m == neg(e1); (void)e; CHECK_MSG(ok, "a line and a plane meet in " << str(m) << " instead of " << str(e1)); } CHECK_EQ(mv(Q ^ pA)[15], md(off - d3(n3, A)));
    auto T = p::translator<F>(tv(t)); SAME("translated point", p::point<F>(tv(s3(A, h)), f(h)) % T, pt(a3(A, t), h)); if (!h) SAME("directions stay", p::blade3<F>(f(0), tv(A)) % T, mv(p::blade3<F>(f(0), tv(A)))); SAME("translated plane", Q % T, pl(n3, md(off + d3(n3, t)))); SAME("translated line", p::line<F>(tv(dir), tv(A)) % T, ln(dir, a3(A, t))); auto T2 = p::translator<F>(tv(B)); SAME("translations add up", T * T2, mv(p::translator<F>(tv(a3(t, B)))));
    /* reflection in the plane n3.x = d, weighted by -|n3|^2 */ ll nq = d3(n3, n3); T3 R = a3(s3(A, nq), n3, md(-2 * md(d3(n3, A) - off))); SAME("reflected point", pA % Q, mv(p::point<F>(tv(s3(R, -1)), f(-nq)))); c.nontrivial(det != 0 && den != 0);
}
PROP(pga_rotor, 510000, 12750000) {
    typedef vector3d<double> D; auto rd = [&] { return D(c.range(-20, 20) / 4.0, c.range(-20, 20) / 4.0, c.range(-20, 20) / 4.0); }; D n = rd(), X = rd(), t = rd(); c.assume(n.abs2() > 0.1); double a = c.real(-6, 6); SHOW(a); double len = std::sqrt(n.x * n.x + n.y * n.y + n.z * n.z), nx = n.x / len, ny = n.y / len, nz = n.z / len, co = std::cos(a), si = std::sin(a), dp = nx * X.x + ny * X.y + nz * X.z; D Y(X.x * co + (ny * X.z - nz * X.y) * si + nx * dp * (1 - co), X.y * co + (nz * X.x - nx * X.z) * si + ny * dp * (1 - co), X.z * co + (nx * X.y - ny * X.x) * si + nz * dp * (1 - co));
    auto r = p::rotor<double>(n, a), r2 = p::rotor<double>(n, std::cos(a / 2), std::sin(a / 2)); CHECK(std::abs(r.b0.s - r2.b0.s) < 1e-9 && std::abs(r.b2E.biE.x - r2.b2E.biE.x) < 1e-9); auto near = [&](const p::blade3<double>& q, const D& e) { return std::abs(q.e123 - 1) < 1e-6 && std::abs(q.triP.x + e.x) < 1e-6 && std::abs(q.triP.y + e.y) < 1e-6 && std::abs(q.triP.z + e.z) < 1e-6; }; CHECK_MSG(near(p::point<double>(X) % r, Y), "rotation by " << a); auto m = p::translator<double>(t) * r; CHECK_MSG(near(p::point<double>(X) % m, Y + t), "rotate, then translate"); auto im = m.inv(); CHECK_MSG(near((p::point<double>(X) % m) % im, X), "inverse motion"); CHECK(near(+p::point<double>(X), X) && (+m).b02.b0.s == m.b02.b0.s && (+m).b24.b2e.bie == m.b24.b2e.bie); D e0 = rd(); auto pl = p::plane<double>(e0, 0.0) % r; double dq = e0.x * X.x + e0.y * X.y + e0.z * X.z, dr = pl.v.x * Y.x + pl.v.y * Y.y + pl.v.z * Y.z; CHECK_MSG(std::abs(dq - dr) < 1e-6 * (1 + std::abs(dq)), "a rotated plane keeps its distances"); c.nontrivial(X.abs2() > 0 && std::abs(a) > 0.01);
}

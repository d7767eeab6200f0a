// C63: stream output of library values matches an independently built text; manipulators are scoped.
#include "pbt.h"
#include <sstream>
#include <array>
#include <memory>
#include "altruct/io/iostream_overloads.h"
using namespace altruct::math;
typedef long long ll; typedef modulo<int, 1007, modulo_storage::CONSTANT> mod; typedef moduloX<int> modx;
static std::string S(ll x) { return std::to_string(x); }
static std::string join(const std::vector<std::string>& v) { std::string r = "{"; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + v[i]; return r + "}"; }
template<typename T> static std::string out(const T& v) { std::ostringstream os; os << v; return os.str(); }
// the state of the manipulators
struct St { bool fd = false, fp = false, mm = false, mp = false, pv = true; };
static std::string tx(const St&, int x) { return S(x); } static std::string tx(const St&, ll x) { return S(x); } static std::string tx(const St&, const std::string& x) { return x; }
static std::string tx(const St& s, const fraction<int>& f) { if (s.fp) return join({ S(f.p), S(f.q) }); return s.fd || f.q != 1 ? S(f.p) + "/" + S(f.q) : S(f.p); }
static std::string txm(const St& s, ll v, ll M) { return s.mp ? join({ S(v), S(M) }) : s.mm ? S(v) + " (mod " + S(M) + ")" : S(v); }
static std::string tx(const St& s, const mod& m) { return txm(s, m.v, 1007); } static std::string tx(const St& s, const modx& m) { return txm(s, m.v, m.M()); }
template<typename A, typename B> static std::string tx(const St& s, const std::pair<A, B>& p) { return join({ tx(s, p.first), tx(s, p.second) }); }
template<typename C> static std::string txc(const St& s, const C& v) { std::vector<std::string> r; for (auto& x : v) r.push_back(tx(s, x)); return join(r); }
template<typename T> static std::string tx(const St& s, const std::vector<T>& v) { return txc(s, v); }
template<typename T, size_t N> static std::string tx(const St& s, const std::array<T, N>& v) { return txc(s, v); }
template<typename T, typename P> static std::string tx(const St& s, const std::set<T, P>& v) { return txc(s, v); }
template<typename K, typename T> static std::string tx(const St& s, const std::map<K, T>& v) { return txc(s, v); }
template<typename T> static std::string tx(const St& s, const triple<T>& t) { return join({ tx(s, t.a), tx(s, t.b), tx(s, t.c) }); }
template<typename T> static std::string tx(const St& s, const vector2d<T>& t) { return join({ tx(s, t.x), tx(s, t.y) }); }
template<typename T> static std::string tx(const St& s, const matrix<T>& m) { std::vector<std::string> rows; for (int i = 0; i < m.rows(); i++) { std::vector<std::string> r; for (int j = 0; j < m.cols(); j++) r.push_back(tx(s, m[i][j])); rows.push_back(join(r)); } return join(rows); }
template<typename T> static std::string tx(const St& s, const polynom<T>& p) { std::vector<std::string> v; for (int i = 0; i < p.size(); i++) v.push_back(tx(s, p[i])); if (s.pv) return join(v); std::string r; for (int i = p.size() - 1; i >= 0; i--) { if (p[i] == T(0)) continue; if (!r.empty()) r += " + "; r += v[i] + (i == 0 ? "" : i == 1 ? " x" : " x^" + S(i)); } return r.empty() ? tx(s, T(0)) : r; }
template<typename T> static T gv(pbt::Ctx& c); template<> int gv<int>(pbt::Ctx& c) { return c.coin() ? (int)c.range(-3, 3) : c.any<int>(); } template<> ll gv<ll>(pbt::Ctx& c) { return c.any<int64_t>(); } template<> std::string gv<std::string>(pbt::Ctx& c) { return c.str(0, 4, "ab, {}"); }
template<> fraction<int> gv<fraction<int>>(pbt::Ctx& c) { return fraction<int>((int)c.range(-20, 20), (int)c.range(1, 6)); } template<> mod gv<mod>(pbt::Ctx& c) { return mod((int)c.range(0, 1006)); } template<> modx gv<modx>(pbt::Ctx& c) { int M = (int)c.range(2, 30); return modx((int)c.range(0, M - 1), M); }
template<typename T> static std::vector<T> gvec(pbt::Ctx& c, int n = 4) { std::vector<T> v(c.below(n + 1)); for (auto& x : v) x = gv<T>(c); return v; }
template<typename T> static void one(pbt::Ctx& c, const St& s, const T& v) { std::string e = tx(s, v); c.show("expect", e); CHECK_EQ(out(v), e); }
template<typename T> static void value(pbt::Ctx& c, const St& s) { switch (c.below(8)) { case 0: one(c, s, gv<T>(c)); break; case 1: one(c, s, gvec<T>(c)); break; case 2: one(c, s, std::make_pair(gv<T>(c), gv<int>(c))); break; case 3: { std::array<T, 3> a{ { gv<T>(c), gv<T>(c), gv<T>(c) } }; one(c, s, a); break; } case 4: { std::vector<std::vector<T>> v(c.below(4)); for (auto& x : v) x = gvec<T>(c, 3); one(c, s, v); break; } case 5: { std::map<int, std::vector<T>> m; for (int i = (int)c.below(4); i > 0; i--) m[gv<int>(c)] = gvec<T>(c, 2); one(c, s, m); break; } case 6: { std::vector<std::pair<std::set<int, std::greater<int>>, T>> v; for (int i = (int)c.below(3); i > 0; i--) { auto u = gvec<int>(c); v.push_back({ std::set<int, std::greater<int>>(u.begin(), u.end()), gv<T>(c) }); } one(c, s, v); break; } default: { auto t = triple<T>{ gv<T>(c), gv<T>(c), gv<T>(c) }; one(c, s, t); } } }
template<typename T> static polynom<T> gpoly(pbt::Ctx& c) { bool big = c.chance(1, 30); std::vector<T> v(big ? c.below(140) : c.below(6)); for (auto& x : v) x = (big ? !c.chance(1, 12) : c.chance(1, 3)) ? T(0) : gv<T>(c); return polynom<T>(v); }
static void any_value(pbt::Ctx& c, const St& s) { int k = (int)c.below(11); c.show("kind", k); switch (k) { case 0: value<int>(c, s); break; case 1: value<std::string>(c, s); break; case 2: value<fraction<int>>(c, s); break; case 3: value<mod>(c, s); break; case 4: value<modx>(c, s); break; case 5: one(c, s, gpoly<int>(c)); break; case 6: one(c, s, gpoly<mod>(c)); break; case 7: one(c, s, gpoly<fraction<int>>(c)); break; case 8: one(c, s, vector2d<ll>(gv<ll>(c), gv<ll>(c))); break; case 9: { matrix<int> m((int)c.range(1, 3), (int)c.range(1, 3)); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m[i][j] = gv<int>(c); one(c, s, m); break; } default: { std::vector<polynom<mod>> v; for (int i = (int)c.below(3); i > 0; i--) v.push_back(gpoly<mod>(c)); one(c, s, v); } } }
static void nest(pbt::Ctx& c, St s, int d) { any_value(c, s); if (d == 0) return; for (int i = (int)c.below(3); i > 0; i--) { bool b = c.coin(); int k = (int)c.below(5); c.show("set", std::make_pair(k, b)); St t = s; switch (k) { case 0: { io_fraction_denominator m(b); t.fd = b; nest(c, t, d - 1); break; } case 1: { io_fraction_as_pair m(b); t.fp = b; nest(c, t, d - 1); break; } case 2: { io_modulo_modulus m(b); t.mm = b; nest(c, t, d - 1); break; } case 3: { io_modulo_as_pair m(b); t.mp = b; nest(c, t, d - 1); break; } default: { io_polynom_as_vector m(b); t.pv = b; nest(c, t, d - 1); } } c.show("end of scope", k); any_value(c, s); } }
PROP(values_and_manipulators, 660000, 16500000) { nest(c, St(), 3); c.nontrivial(true); }
PROP(inline_manipulators, 1000000, 25000000) { auto f = gv<fraction<int>>(c); auto m = gv<modx>(c); auto p = gpoly<int>(c); St s, t; t.fd = c.coin(); t.fp = c.coin(); t.mm = c.coin(); t.mp = c.coin(); t.pv = c.coin(); std::ostringstream os; os << io_fraction_denominator(t.fd) << io_fraction_as_pair(t.fp) << f << "|" << io_modulo_modulus(t.mm) << io_modulo_as_pair(t.mp) << m << "|" << io_polynom_as_vector(t.pv) << p; CHECK_EQ(os.str(), tx(t, f) + "|" + tx(t, m) + "|" + tx(t, p)); std::ostringstream o2; o2 << f << m << p; CHECK_EQ(o2.str(), tx(s, f) + tx(s, m) + tx(s, p)); c.nontrivial(true);
    std::unordered_set<int> us; std::unordered_map<int, int> um; for (int i = (int)c.below(5); i > 0; i--) { us.insert(gv<int>(c)); um[gv<int>(c)] = i; } CHECK_EQ(out(us), txc(s, us)); std::vector<std::string> r; for (auto& e : um) r.push_back(join({ S(e.first), S(e.second) })); CHECK_EQ(out(um), join(r)); symbolic sy(c.str(1, 3, "xyz")); std::ostringstream o3; ::operator<< <std::string>(o3, sy); CHECK_EQ(o3.str(), sy.v); std::ostringstream o4; output_container(o4, std::vector<int>{ 1, 2, 3 }, ";"); CHECK_EQ(o4.str(), "{1;2;3}"); }
template<size_t N> static std::string terms(const ll (&v)[N], const char* const (&n)[N]) { std::string r; for (size_t i = 0; i < N; i++) r += (i ? " + " : "") + S(v[i]) + " " + n[i]; return r; }
PROP(geometric_algebra, 260000, 6500000) { ll v[16]; for (auto& x : v) x = c.coin() ? c.range(-9, 9) : c.any<int64_t>(); typedef vector3d<ll> V; using namespace altruct::math::pga; blade0<ll> b0(v[0]); blade1<ll> b1(v[1], V(v[2], v[3], v[4])); blade2E<ll> bE(V(v[5], v[6], v[7])); blade2e<ll> be(V(v[8], v[9], v[10])); blade3<ll> b3(v[11], V(v[12], v[13], v[14])); blade4<ll> b4(v[15]);
    std::string s0 = S(v[0]) + " id", s1 = terms({ v[1], v[2], v[3], v[4] }, { "e0", "e1", "e2", "e3" }), sE = terms({ v[5], v[6], v[7] }, { "e23", "e31", "e12" }), se = terms({ v[8], v[9], v[10] }, { "e01", "e02", "e03" }), s3 = terms({ v[11], v[12], v[13], v[14] }, { "e123", "e032", "e013", "e021" }), s4 = S(v[15]) + " e0123", p = " + "; CHECK_EQ(out(b0), s0); CHECK_EQ(out(b1), s1); CHECK_EQ(out(bE), sE); CHECK_EQ(out(be), se); CHECK_EQ(out(b3), s3); CHECK_EQ(out(b4), s4); CHECK_EQ(out(zero<ll>()), "0");
    CHECK_EQ(out(blade02E<ll>(b0, bE)), s0 + p + sE); CHECK_EQ(out(blade02e<ll>(b0, be)), s0 + p + se); CHECK_EQ(out(blade22<ll>(bE, be)), sE + p + se); CHECK_EQ(out(blade2E4<ll>(bE, b4)), sE + p + s4); CHECK_EQ(out(blade2e4<ll>(be, b4)), se + p + s4); blade024<ll> m(blade02E<ll>(b0, bE), blade2e4<ll>(be, b4)); CHECK_EQ(out(m), s0 + p + sE + p + se + p + s4); blade13<ll> q(b1, b3); CHECK_EQ(out(q), s1 + p + s3); CHECK_EQ(out(pga::multivector<ll>(m, q)), s0 + p + sE + p + se + p + s4 + p + s1 + p + s3);
    cl3::rotor<ll> r(v[0], v[1], v[2], v[3]); cl3::vector<ll> w(v[4], v[5], v[6], v[7]); std::string sr = join({ S(r.s), S(r.yz), S(r.zx), S(r.xy) }), sw = join({ S(w.x), S(w.y), S(w.z), S(w.w) }); CHECK_EQ(out(r), sr); CHECK_EQ(out(w), sw); CHECK_EQ(out(cl3::multivector<ll>(r, w)), join({ sr, sw })); c.nontrivial(true); }

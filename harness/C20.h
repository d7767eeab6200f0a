#pragma once
// C20: vectors, Clifford algebra G(3,0) and plane-based geometric algebra G(3,0,1), against one generic blade-by-blade model.
#include "pbt.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/pga.h"
#include <array>
using namespace altruct::math;
typedef int64_t ll;
static const int P = 1000003;
typedef modulo<int, P, modulo_storage::CONSTANT> F;
// ---- the model: 16 coefficients indexed by the set of basis vectors, e0^2 = 0 and e1^2 = e2^2 = e3^2 = 1 -----------
typedef std::array<ll, 16> MV;
static ll md(ll x) { x %= P; return x < 0 ? x + P : x; }
static ll minv(ll a) { ll r = 1; for (ll e = P - 2, b = md(a); e; e >>= 1, b = b * b % P) if (e & 1) r = r * b % P; return r; }
static int swaps(int a, int b) { int s = 0; for (a >>= 1; a; a >>= 1) s += __builtin_popcount(a & b); return s; }
static int grade(int m) { return __builtin_popcount(m); }
template<typename K> static MV prod(const MV& a, const MV& b, K keep) { MV r{}; for (int i = 0; i < 16; i++) if (a[i]) for (int j = 0; j < 16; j++) if (b[j] && !(i & j & 1) && keep(grade(i), grade(j), grade(i ^ j))) { ll t = a[i] * b[j] % P; r[i ^ j] = md(r[i ^ j] + (swaps(i, j) % 2 ? -t : t)); } return r; }
static MV geo(const MV& a, const MV& b) { return prod(a, b, [](int, int, int) { return true; }); }
static MV wedge(const MV& a, const MV& b) { return prod(a, b, [](int x, int y, int z) { return z == x + y; }); }
static MV dot(const MV& a, const MV& b) { return prod(a, b, [](int x, int y, int z) { return z == std::abs(x - y); }); }
static MV add(const MV& a, const MV& b) { MV r; for (int i = 0; i < 16; i++) r[i] = md(a[i] + b[i]); return r; }
static MV scale(const MV& a, ll k) { MV r; for (int i = 0; i < 16; i++) r[i] = md(a[i] * md(k)); return r; }
static MV neg(const MV& a) { return scale(a, -1); }
static MV rev(const MV& a) { MV r = a; for (int i = 0; i < 16; i++) if (grade(i) % 4 >= 2) r[i] = md(-r[i]); return r; }
static std::string str(const MV& a) { std::ostringstream o; for (int i = 0; i < 16; i++) if (a[i]) { o << (o.str().empty() ? "" : " + ") << a[i] << "e"; for (int j = 0; j < 4; j++) if (i >> j & 1) o << j; } return o.str().empty() ? "0" : o.str(); }
static ll coef(pbt::Ctx& c) { switch (c.below(4)) { case 0: return 0; case 1: return md(c.range(-2, 2)); case 2: return md(c.range(-20, 20)); default: return c.range(0, P - 1); } }
static F f(ll x) { return F((int)md(x)); }
static ll g(const F& x) { return x.v; }
// basis order of the library: e23 e31 e12 / e01 e02 e03 / e032 e013 e021
typedef vector3d<F> V3;
static V3 v3(ll x, ll y, ll z) { return V3(f(x), f(y), f(z)); }
namespace p = altruct::math::pga;
static void put(MV& m, const p::zero<F>&) {}
static void put(MV& m, const p::blade0<F>& b) { m[0] = g(b.s); }
static void put(MV& m, const p::blade1<F>& b) { m[1] = g(b.e0); m[2] = g(b.v.x); m[4] = g(b.v.y); m[8] = g(b.v.z); }
static void put(MV& m, const p::blade2E<F>& b) { m[12] = g(b.biE.x); m[10] = md(-g(b.biE.y)); m[6] = g(b.biE.z); }
static void put(MV& m, const p::blade2e<F>& b) { m[3] = g(b.bie.x); m[5] = g(b.bie.y); m[9] = g(b.bie.z); }
static void put(MV& m, const p::blade3<F>& b) { m[14] = g(b.e123); m[13] = md(-g(b.triP.x)); m[11] = g(b.triP.y); m[7] = md(-g(b.triP.z)); }
static void put(MV& m, const p::blade4<F>& b) { m[15] = g(b.e0123); }
template<typename B> static auto put(MV& m, const B& b) -> decltype(b.first(), void()) { put(m, b.first()); put(m, b.second()); }
template<typename B> static MV mv(const B& b) { MV m{}; put(m, b); return m; }
template<typename B> struct mk {};
template<> struct mk<p::blade0<F>> { static p::blade0<F> of(const MV& m) { return p::blade0<F>(f(m[0])); } enum { M = 1 }; };
template<> struct mk<p::blade1<F>> { static p::blade1<F> of(const MV& m) { return p::blade1<F>(f(m[1]), v3(m[2], m[4], m[8])); } enum { M = 1 << 1 | 1 << 2 | 1 << 4 | 1 << 8 }; };
template<> struct mk<p::blade2E<F>> { static p::blade2E<F> of(const MV& m) { return p::blade2E<F>(v3(m[12], -m[10], m[6])); } enum { M = 1 << 12 | 1 << 10 | 1 << 6 }; };
template<> struct mk<p::blade2e<F>> { static p::blade2e<F> of(const MV& m) { return p::blade2e<F>(v3(m[3], m[5], m[9])); } enum { M = 1 << 3 | 1 << 5 | 1 << 9 }; };
template<> struct mk<p::blade3<F>> { static p::blade3<F> of(const MV& m) { return p::blade3<F>(f(m[14]), v3(-m[13], m[11], -m[7])); } enum { M = 1 << 14 | 1 << 13 | 1 << 11 | 1 << 7 }; };
template<> struct mk<p::blade4<F>> { static p::blade4<F> of(const MV& m) { return p::blade4<F>(f(m[15])); } enum { M = 1 << 15 }; };
#define COMPOSITE(B, L, R) template<> struct mk<p::B<F>> { static p::B<F> of(const MV& m) { return p::B<F>(mk<p::L<F>>::of(m), mk<p::R<F>>::of(m)); } enum { M = mk<p::L<F>>::M | mk<p::R<F>>::M }; };
COMPOSITE(blade02E, blade0, blade2E) COMPOSITE(blade02e, blade0, blade2e) COMPOSITE(blade22, blade2E, blade2e) COMPOSITE(blade2E4, blade2E, blade4) COMPOSITE(blade2e4, blade2e, blade4) COMPOSITE(blade024, blade02E, blade2e4) COMPOSITE(blade13, blade1, blade3) COMPOSITE(multivector, blade024, blade13)
template<typename B> static MV draw(pbt::Ctx& c) { MV m{}; for (int i = 0; i < 16; i++) if (mk<B>::M >> i & 1) m[i] = coef(c); return m; }
template<typename... B> struct list {};
typedef list<p::blade0<F>, p::blade1<F>, p::blade2E<F>, p::blade2e<F>, p::blade3<F>, p::blade4<F>, p::blade02E<F>, p::blade02e<F>, p::blade22<F>, p::blade2E4<F>, p::blade2e4<F>, p::blade024<F>, p::blade13<F>, p::multivector<F>> All;
typedef list<p::blade0<F>, p::blade1<F>, p::blade2E<F>, p::blade2e<F>, p::blade3<F>, p::blade4<F>, p::blade02E<F>, p::blade02e<F>, p::blade22<F>, p::blade2E4<F>, p::blade2e4<F>, p::blade024<F>, p::blade13<F>> Versors;
#define SAME(what, lib, model) do { MV l_ = mv(lib), m_ = (model); CHECK_MSG(l_ == m_, what << " gives " << str(l_) << " instead of " << str(m_)); } while (0)
// the dual exchanges the two halves of {e0, v, s, biE | e123, triP, e0123, bie} in the library's basis
static MV dual(const MV& a) { MV r{}; auto sw = [&](int i, int j, int s) { r[i] = md(s * a[j]); r[j] = md(s * a[i]); }; sw(0, 15, 1); sw(1, 14, 1); sw(2, 13, -1); sw(4, 11, 1); sw(8, 7, -1); sw(12, 3, 1); sw(10, 5, -1); sw(6, 9, 1); return r; }
template<typename Op, typename A, typename... B> static void pairs(std::vector<void (*)(pbt::Ctx&)>& t, list<B...>) { int d[] = { (t.push_back(&Op::template run<A, B>), 0)... }; (void)d; }
template<typename Op, typename R, typename... A> static std::vector<void (*)(pbt::Ctx&)> table(list<A...>) { std::vector<void (*)(pbt::Ctx&)> t; int d[] = { (pairs<Op, A>(t, R()), 0)... }; (void)d; return t; }

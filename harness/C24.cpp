// C24: polynomial hashes, cumulative hashes, hash_combine and hashes of tuples.
#include "pbt.h"
#include <unordered_set>
#include <unordered_map>
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"
using namespace altruct::hash;
typedef __int128 LL;
typedef polynomial_hash<2> H2; typedef polynomial_hash<3, int64_t, __int128> H3; 
static const int64_t P1 = 1000000007, P2 = 998244353, Q[3] = { 1000000007LL * 0 + 2305843009213693951LL, 1000000000039LL, 97 };
static int64_t pw(int64_t b, int64_t e, int64_t m) { LL r = 1 % m, x = b % m; for (; e; e >>= 1, x = x * x % m) if (e & 1) r = r * x % m; return (int64_t)r; }
template<> int32_t H2::M[2] = { (int32_t)P1, (int32_t)P2 };
template<> int32_t H2::B[2] = { 1000003, 31 };
template<> int32_t H2::BI[2] = { (int32_t)pw(1000003, P1 - 2, P1), (int32_t)pw(31, P2 - 2, P2) };
template<> int64_t H3::M[3] = { Q[0], Q[1], Q[2] };
template<> int64_t H3::B[3] = { 1234567890123LL, 987654321, 5 };
template<> int64_t H3::BI[3] = { pw(1234567890123LL, Q[0] - 2, Q[0]), pw(987654321, Q[1] - 2, Q[1]), pw(5, Q[2] - 2, Q[2]) };
typedef polynomial_hash1<1000000007, 911, 963776077> H1;   // 911 * 963776077 = 1 (mod 1000000007)
static int64_t md(LL a, int64_t m) { LL r = a % m; return (int64_t)(r < 0 ? r + m : r); }
// hash of a sequence by its definition
template<typename V> static int64_t def(const V& v, size_t b, size_t e, int64_t base, int64_t m) { LL r = 0, w = 1; for (size_t i = b; i < e; i++) { r = (r + w * (LL)v[i]) % m; w = w * base % m; } return md(r, m); }
struct T2 { static bool ok(const H2& h, const std::vector<int>& v, size_t b, size_t e) { for (int k = 0; k < 2; k++) if (h.h[k] != def(v, b, e, H2::B[k], H2::M[k])) return false; return true; } };
struct T3 { static bool ok(const H3& h, const std::vector<int>& v, size_t b, size_t e) { for (int k = 0; k < 3; k++) if (h.h[k] != def(v, b, e, H3::B[k], H3::M[k])) return false; return true; } };
struct T1 { static bool ok(const H1& h, const std::vector<int>& v, size_t b, size_t e) { return h.h == def(v, b, e, 911, P1); } };
template<typename H, typename T> static void cumul(pbt::Ctx& c, bool signedVals) {
    int al = c.pick<int>({ 1, 2, 3, 96 }); std::vector<int> v(c.size_mostly(0, 25, 1500, 60)); bool neg = signedVals && c.coin(); for (auto& x : v) x = (int)c.below(al) - (neg ? al / 2 : 0); SHOW(v); cumulative_hash<H> h; std::vector<int> m; int how = (int)c.below(3); if (how == 0) { h = cumulative_hash<H>(v.begin(), v.end()); m = v; } else if (how == 1) { for (int x : v) h.push_back(x); m = v; } else { h.assign(v.begin(), v.begin() + v.size() / 2); h.assign(v.begin(), v.end()); m = v; } SHOW(how);
    size_t steps = c.range(0, 10); for (size_t s = 0; s < steps; s++) { if (c.coin() && m.size()) { h.pop_back(); m.pop_back(); } else { int x = (int)c.below(al) - (neg ? al / 2 : 0); h.push_back(x); m.push_back(x); } } CHECK_EQ(h.size(), m.size()); size_t n = m.size(); bool eq = false;
    if (n <= 40) { for (size_t b = 0; b <= n; b++) for (size_t e = b; e <= n; e++) CHECK_MSG(T::ok(h.get(b, e), m, b, e), "hash of [" << b << "," << e << ") is wrong"); } else for (int q = 0; q < 12; q++) { size_t b = c.coin() ? c.range(0, n) : n - c.range(0, 20), e = c.range(b, n); CHECK_MSG(T::ok(h.get(b, e), m, b, e), "hash of [" << b << "," << e << ") is wrong"); } for (int q = 0; q < 20 && n; q++) { size_t l = c.range(1, n), a = c.range(0, n - l), b = c.range(0, n - l); bool same = std::equal(m.begin() + a, m.begin() + a + l, m.begin() + b); CHECK_MSG((h.get(a, a + l) == h.get(b, b + l)) == same, "equality of the hashes at " << a << " and " << b << ", length " << l); eq = eq || (same && a != b && l > 1); } c.nontrivial(eq); c.label("negative elements", neg);
}
PROP(cumulative_two_bases, 190000, 4750000) { cumul<H2, T2>(c, true); }
PROP(cumulative_wide, 130000, 3250000) { cumul<H3, T3>(c, true); }
PROP(cumulative_one_base, 370000, 9250000) { cumul<H1, T1>(c, true); }
// arithmetic of hash values is arithmetic modulo each modulus
template<typename H, typename I> static void arith(pbt::Ctx& c, size_t K, std::function<I(const H&, size_t)> at, std::function<H(std::vector<int64_t>)> mk, std::vector<int64_t> M, std::vector<int64_t> B, bool scalar, std::function<void(H&, int, int64_t, size_t)> sc) {
    auto gen = [&] { std::vector<int64_t> v(K); for (size_t k = 0; k < K; k++) v[k] = c.chance(1, 4) ? M[k] - 1 - (int64_t)c.below(3) : (int64_t)(c.any<uint64_t>() % (uint64_t)M[k]); return v; }; auto a = gen(), b = gen(); if (c.chance(1, 6)) b = a; SHOW(a); SHOW(b); H x = mk(a), y = mk(b); size_t p = c.range(0, c.chance(1, 10) ? 3000 : 40); SHOW(p); c.nontrivial(p > 1);
    auto chk = [&](const H& h, const char* what, std::function<LL(size_t)> f) { for (size_t k = 0; k < K; k++) CHECK_MSG(at(h, k) == (I)md(f(k), M[k]), what << ": component " << k << " is " << (int64_t)at(h, k)); };
    chk(x + y, "+", [&](size_t k) { return (LL)a[k] + b[k]; }); chk(x - y, "-", [&](size_t k) { return (LL)a[k] - b[k]; }); chk(x * y, "*", [&](size_t k) { return (LL)a[k] * b[k]; }); chk(x << (int)p, "<<", [&](size_t k) { return (LL)a[k] * pw(B[k], (int64_t)p, M[k]); }); chk((x << (int)p) >> (int)p, "<< >>", [&](size_t k) { return (LL)a[k]; }); chk((x >> (int)p) << (int)p, ">> <<", [&](size_t k) { return (LL)a[k]; }); H z = x; z.add(y, p); chk(z, "add", [&](size_t k) { return (LL)a[k] + (LL)b[k] * pw(B[k], (int64_t)p, M[k]) % M[k]; }); z = x; z.sub_shr(y, p); chk(z << (int)p, "sub_shr", [&](size_t k) { return (LL)a[k] - b[k]; });
    bool lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); CHECK_EQ(x < y, lt); CHECK_EQ(x == y, a == b); CHECK_EQ((int64_t)x.hash(), (int64_t)at(x, 0)); H cl = x.clone(); CHECK(cl == x);
    if (scalar) { int64_t s = c.range(0, 96); SHOW(s); for (int op = 0; op < 5; op++) { H w = x; sc(w, op, s, p); if (op == 4) w <<= (int)p; chk(w, "scalar op", [&](size_t k) -> LL { switch (op) { case 0: return (LL)a[k] + s; case 1: return (LL)a[k] - s; case 2: return (LL)a[k] * s; case 3: return (LL)a[k] + (LL)s * pw(B[k], (int64_t)p, M[k]); default: return (LL)a[k] - s; } }); } }
}
PROP(arithmetic_two_bases, 850000, 21250000) { arith<H2, int32_t>(c, 2, [](const H2& h, size_t k) { return h.h[k]; }, [](std::vector<int64_t> v) { return H2{ (int32_t)v[0], (int32_t)v[1] }; }, { P1, P2 }, { H2::B[0], H2::B[1] }, true, [](H2& h, int op, int64_t s, size_t p) { int32_t x = (int32_t)s; switch (op) { case 0: h = h + x; break; case 1: h = h - x; break; case 2: h = h * x; break; case 3: h.add(x, p); break; default: h.sub_shr(x, p); } }); }
PROP(arithmetic_wide, 750000, 18750000) { arith<H3, int64_t>(c, 3, [](const H3& h, size_t k) { return h.h[k]; }, [](std::vector<int64_t> v) { return H3{ v[0], v[1], v[2] }; }, { Q[0], Q[1], Q[2] }, { H3::B[0], H3::B[1], H3::B[2] }, true, [](H3& h, int op, int64_t s, size_t p) { switch (op) { case 0: h = h + s; break; case 1: h = h - s; break; case 2: h = h * s; break; case 3: h.add(s, p); break; default: h.sub_shr(s, p); } }); }
PROP(arithmetic_one_base, 1300000, 32500000) { arith<H1, int32_t>(c, 1, [](const H1& h, size_t) { return h.h; }, [](std::vector<int64_t> v) { return H1((int32_t)v[0]); }, { P1 }, { 911 }, false, nullptr); }
PROP(construction, 8900000, 222500000) { int a = (int)c.range(0, 1000), b = (int)c.range(0, 1000); SHOW(a); SHOW(b); H2 x{ a }; CHECK_EQ(x.h[0], a); CHECK_EQ(x.h[1], 0); H2 y{ a, b, 7 }; CHECK_EQ(y.h[0], a); CHECK_EQ(y.h[1], b); H2 z; CHECK_EQ(z.h[0], 0); CHECK_EQ(z.h[1], 0); CHECK_EQ(H1().h, 0); int32_t e = c.any<int32_t>(); SHOW(e); CHECK_EQ((int64_t)H1(e).h, md(e, P1)); c.nontrivial(a != b); }
// hash_combine and tuples: equal values hash equal; the order matters; no systematic collisions
PROP(tuple_hash, 690000, 17250000) {
    typedef std::tuple<int, std::string, int64_t> T; auto gen = [&] { return T((int)c.range(-3, 3), c.str(0, 2, "ab"), c.range(-2, 2)); }; T a = gen(), b = gen(); if (c.chance(1, 4)) b = T(std::get<0>(a), std::get<1>(a), std::get<2>(a)); std::hash<T> h; if (a == b) CHECK_EQ(h(a), h(b)); else CHECK_MSG(h(a) != h(b), "different small tuples collide"); c.show("a", std::get<1>(a)); auto mk = [&] { return c.coin() ? c.range(-20, 20) : c.any<int64_t>(); }; std::pair<int64_t, int64_t> p(mk(), mk()), q(mk(), mk()); if (c.coin()) q = { p.second, p.first }; if (c.chance(1, 4)) q = p; std::hash<std::pair<int64_t, int64_t>> hp; SHOW(p); SHOW(q); if (p == q) CHECK_EQ(hp(p), hp(q)); std::hash<std::tuple<int64_t, int64_t>> ht; CHECK_EQ(ht(std::make_tuple(p.first, p.second)) == ht(std::make_tuple(q.first, q.second)), hp(p) == hp(q)); size_t s = c.any<uint64_t>(), s1 = s, s2 = s; std::hash_combine(s1, p.first); std::hash_combine(s2, p.first); CHECK_EQ(s1, s2); c.nontrivial(p != q);
    std::unordered_map<std::pair<int, int>, int> m; std::map<std::pair<int, int>, int> r; for (int i = (int)c.range(0, 20); i > 0; i--) { std::pair<int, int> k((int)c.range(-3, 3), (int)c.range(-3, 3)); m[k] = i; r[k] = i; } CHECK_EQ(m.size(), r.size()); for (auto& e : r) CHECK_EQ(m.at(e.first), e.second); }
PROP(few_collisions, 20000, 500000) { int64_t x0 = c.any<int64_t>() / 4, y0 = c.any<int64_t>() / 4; if (c.coin()) x0 = c.range(-100, 100), y0 = c.range(-100, 100); SHOW(x0); SHOW(y0); std::unordered_set<size_t> s; std::hash<std::pair<int64_t, int64_t>> h; for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) s.insert(h({ x0 + i, y0 + j })); CHECK_MSG(s.size() > 500, "1024 neighbouring pairs have only " << s.size() << " hashes"); c.nontrivial(true); }

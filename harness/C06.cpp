// C06: sieves, segmented sieves, prime tables and everything computed from a factorization.
#include "altruct/structure/math/prime_holder.h"
#include "ref.h"
#include <memory>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;

struct Fact { std::vector<std::pair<int, int>> f; };
static std::vector<std::pair<int, int>> table_factor(int n) {
    const auto& t = ref::spf_table(); std::vector<std::pair<int, int>> r;
    while (n > 1) { int p = t[n], e = 0; while (n % p == 0) n /= p, e++; r.push_back({ p, e }); }
    return r;
}
static bool tprime(int n) { return n > 1 && ref::spf_table()[n] == n; }
static int t_phi(int n) { if (n == 0) return 0; int r = n; for (auto& f : table_factor(n)) r = r / f.first * (f.first - 1); return r; }
static int t_mu(int n) { if (n == 0) return 0; int r = 1; for (auto& f : table_factor(n)) { if (f.second > 1) return 0; r = -r; } return r; }
// a heap block of exactly n elements, so that an access outside is seen by the sanitizer
template<typename T> struct Buf {
    T* p; explicit Buf(size_t n, T fill = T(77)) : p(new T[n ? n : 1]) { for (size_t i = 0; i < n; i++) p[i] = fill; }
    ~Buf() { delete[] p; } operator T*() { return p; } T& operator[](size_t i) { return p[i]; } Buf(const Buf&) = delete;
};
static int gen_n(Ctx& c) { return c.chance(1, 12) ? (int)c.range(1000, 70000) : (int)c.integer(1, 1500); }

PROP(sieve_tables, 1700, 42500) {
    int n = gen_n(c); SHOW(n); c.nontrivial(n > 10);
    std::vector<int> ps; for (int i = 2; i < n; i++) if (tprime(i)) ps.push_back(i);
    int m = (int)ps.size();
    { // only p
        Buf<int> p(n); CHECK_EQ(primes(p, nullptr, n), m); for (int i = 0; i < m; i++) CHECK_EQ(p[i], ps[i]);
    }
    { // only q
        Buf<char> q(n); CHECK_EQ(primes(nullptr, q, n), m); for (int i = 0; i < n; i++) CHECK_EQ((int)q[i], (int)tprime(i));
    }
    Buf<int> p(m); Buf<char> q(n); // documented: p of size pi(n) is enough when q is given
    CHECK_EQ(primes(p, q, n), m);
    for (int i = 0; i < m; i++) CHECK_EQ(p[i], ps[i]);
    for (int i = 0; i < n; i++) CHECK_EQ((int)q[i], (int)tprime(i));
    Buf<int> a(n); prime_pi(a, n, p, m); for (int i = 0, k = 0; i < n; i++) { k += tprime(i); CHECK_EQ(a[i], k); }
    Buf<int> b(n); euler_phi(b, n, p, m); for (int i = 0; i < n; i++) CHECK_MSG(b[i] == t_phi(i), "phi(" << i << ") = " << b[i]);
    Buf<int> d(n); if (c.coin()) moebius_mu(d, n, p, m); else moebius_mu(d, n); for (int i = 0; i < n; i++) CHECK_MSG(d[i] == t_mu(i), "mu(" << i << ") = " << d[i]);
    Buf<int> e(n); prime_nu(e, n, p, m); for (int i = 1; i < n; i++) CHECK_MSG(e[i] == (int)table_factor(i).size(), "nu(" << i << ") = " << e[i]);
    Buf<int> f(n); factor(f, n, p, m); for (int i = 2; i < n; i++) CHECK_MSG(f[i] == table_factor(i).back().first, "biggest factor of " << i << " = " << f[i]);
    Buf<int> s(n); smallest_factor(s, n); for (int i = 2; i < n; i++) CHECK_MSG(s[i] == (tprime(i) ? 0 : ref::spf_table()[i]), "smallest factor of " << i << " = " << s[i]);
    if (n < 3000) {
        Buf<int> s0(n); Buf<i64> s1(n); divisor_sigma0(s0, n); divisor_sigma1(s1, n);
        for (int i = 1; i < n; i++) { int c0 = 1; i64 c1 = 1; for (auto& g : table_factor(i)) { c0 *= g.second + 1; i64 t = 1, q2 = 1; for (int k = 0; k < g.second; k++) q2 *= g.first, t += q2; c1 *= t; } CHECK_MSG(s0[i] == c0, "sigma0(" << i << ") = " << s0[i]); CHECK_MSG(s1[i] == c1, "sigma1(" << i << ") = " << s1[i]); }
    }
    // factorization by table
    for (int k = 0; k < 5 && n > 2; k++) {
        int x = (int)c.range(1, n - 1); std::vector<std::pair<int, int>> vf; factor_integer(vf, x, f);
        std::sort(vf.begin(), vf.end()); CHECK_EQ(vf, table_factor(x));
        std::map<int, int> mf; factor_integer_to_map(mf, x, f.p); CHECK_EQ((std::vector<std::pair<int, int>>(mf.begin(), mf.end())), table_factor(x));
    }
}
PROP(prime_holder_consistent, 1400, 35000) {
    int n = gen_n(c); SHOW(n); c.nontrivial(n > 10); prime_holder h(n);
    // the tables are lazy: ask in a random order
    auto ord = c.permutation(7); int k = (int)c.range(1, 7); std::vector<int> used(ord.begin(), ord.begin() + k); SHOW(used);
    for (int w : used) switch (w) {
        case 0: { int j = 0; for (int i = 0; i < n; i++) { CHECK_EQ(h.q(i), (int)tprime(i)); if (tprime(i)) CHECK_EQ(h.p(j++), i); } CHECK_EQ(h.primes(), j); CHECK_EQ((int)h.p().size(), j); break; }
        case 1: for (int i = 2; i < n; i++) CHECK_EQ(h.pf(i), table_factor(i).back().first); break;
        case 2: { int s = 0; for (int i = 0; i < n; i++) { s += tprime(i); CHECK_EQ(h.pi(i), s); } break; }
        case 3: for (int i = 0; i < n; i++) CHECK_EQ(h.phi(i), t_phi(i)); break;
        case 4: for (int i = 0; i < n; i++) CHECK_EQ(h.mu(i), t_mu(i)); break;
        case 5: for (int i = 1; i < n; i++) CHECK_EQ(h.nu(i), (int)table_factor(i).size()); break;
        case 6: { int s = 0; for (int i = 0; i < n; i++) { s += t_mu(i); CHECK_EQ(h.mertens(i), s); } for (int i = 0; i < n; i++) CHECK_EQ(h.mu(i), t_mu(i)); break; }
    }
    CHECK_EQ(h.size(), n);
    if (n > 1) for (int r = 0; r < 3; r++) {
        int x = (int)c.range(1, n - 1); CHECK_EQ(h.factor_integer(x), table_factor(x));
        std::vector<int> dv; for (int d = 1; d <= x; d++) if (x % d == 0) dv.push_back(d);
        CHECK_EQ(h.divisors(x), dv);
        int mx = (int)c.range(1, x); std::vector<int> dm; for (int d : dv) if (d <= mx) dm.push_back(d);
        CHECK_EQ(h.divisors(x, mx), dm);
        // a product given as a list
        std::vector<int> vn; u64 prod = 1; int cnt = (int)c.range(0, 4);
        for (int i = 0; i < cnt; i++) { int y = (int)c.range(1, n - 1); if (prod * y > 2000000) break; vn.push_back(y); prod *= y; }
        std::vector<std::pair<int, int>> e; for (auto& g : ref::factor(prod)) e.push_back({ (int)g.first, g.second });
        CHECK_EQ(h.factor_integer(vn), e);
        std::vector<int> pd; for (u64 g : ref::divisors(prod)) pd.push_back((int)g);
        CHECK_EQ(h.divisors(vn), pd); CHECK_EQ(h.divisors<i64>(vn, 50), ([&] { std::vector<i64> v; for (int g : pd) if (g <= 50) v.push_back(g); return v; })());
    }
}
PROP(segmented, 14000, 350000) {
    i64 b = c.coin() ? c.integer(0, 4000) : c.integer(0, 1000000000000ll);
    if (c.chance(1, 4)) { i64 r = c.range(1, 999900); b = r * r - c.range(0, std::min<i64>(r * r, 30)); }
    int w = (int)c.integer(1, 200); i64 e = b + w;
    SHOW(b); SHOW(e); c.nontrivial(w > 3);
    // primes: p[m-1] >= sqrt(e-1)
    const auto& t = ref::spf_table(); static std::vector<int> all; if (all.empty()) for (int i = 2; i < (int)t.size(); i++) if (t[i] == i) all.push_back(i);
    u64 r = ref::isqrt(e); size_t m = std::lower_bound(all.begin(), all.end(), (int)r + 1) - all.begin() + 1;
    m = std::min(all.size(), m + (size_t)c.range(0, 5));
    Buf<int> p(m); for (size_t i = 0; i < m; i++) p[i] = all[i];
    Buf<char> q(w); segmented_q(q, b, e, p, (int)m);
    Buf<i64> phi(w), tmp(w), mu(w); segmented_phi(phi, tmp, b, e, p, (int)m); segmented_mu(mu, b, e, p, (int)m);
    for (int i = 0; i < w; i++) {
        i64 x = b + i; u64 y = x, ph = x; int mm = x ? 1 : 0, np = 0;
        if (x) for (size_t j = 0; j < m && (u64)all[j] * all[j] <= y; j++) if (y % all[j] == 0) { int ee = 0; while (y % all[j] == 0) y /= all[j], ee++; ph = ph / all[j] * (all[j] - 1); mm = ee > 1 ? 0 : -mm; np += ee; }
        if (x && y > 1) { ph = ph / y * (y - 1); mm = -mm; np++; }
        CHECK_MSG((int)q[i] == (np == 1), "prime flag of " << x << " is " << (int)q[i]);
        CHECK_MSG(phi[i] == (i64)ph, "phi(" << x << ") = " << phi[i]); CHECK_MSG(mu[i] == mm, "mu(" << x << ") = " << mu[i]);
        if (x > 1 && w < 8) c.label("square-free composite", mm != 0 && np > 1);
    }
}
// functions of a factorization
PROP(from_factorization_functions, 280000, 7000000) {
    std::vector<int> ps{ 2, 3, 5, 7, 11, 13, 17, 101, 1009, 99991 }; std::vector<std::pair<i64, int>> vf; u64 n = 1;
    auto perm = c.permutation((int)ps.size()); int k = (int)c.range(0, 4);
    for (int i = 0; i < k; i++) { i64 p = ps[perm[i]]; int e = 0, want = (int)c.range(1, 6); while (e < want && n * p < 3000000000ull) n *= p, e++; if (e) vf.push_back({ p, e }); }
    SHOW(vf); SHOW(n); c.nontrivial(vf.size() > 1);
    auto dv = ref::divisors(n);
    std::vector<i64> ds; divisors(ds, vf); std::sort(ds.begin(), ds.end()); CHECK_EQ(ds, std::vector<i64>(dv.begin(), dv.end()));
    CHECK_EQ((divisors<i64, i64>(vf)), std::vector<i64>(dv.begin(), dv.end()));
    i64 mx = c.integer(1, n); std::vector<i64> em; for (u64 d : dv) if ((i64)d <= mx) em.push_back(d);
    CHECK_EQ((divisors<i64, i64>(vf, mx)), em);
    { // a factorization of a number that does not fit the type, with a limit up to the maximum of the type
        std::vector<std::pair<int, int>> wf; int kk = (int)c.range(1, 4); for (int i = 0; i < kk; i++) wf.push_back({ ps[perm[i]], (int)c.range(1, kk == 1 ? 40 : 9) }); int lim = (int)c.integer(1, INT32_MAX); if (c.coin()) lim = INT32_MAX - (int)c.below(1u << 30);
        std::vector<i64> all{ 1 }; for (auto& f : wf) { size_t m = all.size(); for (size_t j = 0; j < m; j++) { i64 x = all[j]; for (int e = 1; e <= f.second; e++) { x *= f.first; if (x > lim) break; all.push_back(x); } } } std::sort(all.begin(), all.end());
        SHOW(wf); SHOW(lim); CHECK_EQ((divisors<int, int>(wf, lim)), std::vector<int>(all.begin(), all.end())); std::vector<i64> l64; divisors<i64>(l64, wf, (i64)lim); std::sort(l64.begin(), l64.end()); CHECK_EQ(l64, all); c.label("limit near the maximum of the type", lim > INT32_MAX / 2);
    }
    std::vector<i64> sq; squarefree_signed_divisors(sq, vf); std::sort(sq.begin(), sq.end());
    std::vector<i64> es; for (u64 d : dv) { int s = 1; bool sf = true; for (auto& f : vf) if (d % f.first == 0) { s = -s; if (d % (f.first * f.first) == 0) sf = false; } if (sf) es.push_back(s * (i64)d); }
    std::sort(es.begin(), es.end()); CHECK_EQ(sq, es);
    CHECK_EQ((euler_phi<i64>(vf)), (i64)ref::phi(n)); CHECK_EQ((carmichael_lambda<i64>(vf)), (i64)ref::lambda(n)); CHECK_EQ((divisor_sigma0<i64>(vf)), (i64)dv.size());
    std::vector<i64> vp; std::vector<int> ve; for (auto& f : vf) vp.push_back(f.first), ve.push_back(f.second);
    CHECK_EQ(prime_factors(vf), vp); CHECK_EQ(prime_exponents(vf), ve);
}
PROP(digits_roundtrip, 960000, 24000000) {
    u64 n = c.uinteger(0, UINT64_MAX); u64 b = c.coin() ? c.uinteger(2, 36) : c.uinteger(2, UINT64_MAX); int len = (int)c.range(0, 70);
    SHOW(n); SHOW(b); SHOW(len); c.nontrivial(n > b);
    std::vector<u64> e; for (u128 t = n; t > 0; t /= b) e.push_back((u64)(t % b)); while ((int)e.size() < len) e.push_back(0);
    auto d = integer_digits<u64, u64>(n, b, len); CHECK_EQ(d, e); CHECK_EQ((from_digits<u64, u64>(d, b)), n);
    if (b <= 36) { std::string s; for (u64 x : e) s.insert(s.begin(), x < 10 ? char('0' + x) : char('a' + x - 10)); CHECK_EQ((integer_string<u64, int>(n, (int)b, len)), s); }
    if (c.chance(1, 8)) n = c.below(3); { std::vector<u64> w; for (u64 t = n; t > 0; t /= b) w.push_back(t % b); CHECK_EQ((integer_digits<u64, u64>(n, b)), w); if (b <= 36) { std::string s; for (u64 x : w) s.insert(s.begin(), x < 10 ? char('0' + x) : char('a' + x - 10)); CHECK_EQ((integer_string<u64, int>(n, (int)b)), s); } } int m = (int)c.integer(0, INT32_MAX); int b2 = (int)c.range(2, 36); auto d2 = integer_digits(m, b2); CHECK_EQ((from_digits<int, int>(d2, b2)), m);
}

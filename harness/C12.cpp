// C12: set-lattice, cyclic and ordinary convolutions, Fourier transforms, tables of complex roots.
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/root_wrapper.h"
#include "altruct/structure/math/complex.h"
#include "ref.h"
#include <cmath>
using namespace altruct::math;
typedef int64_t i64; typedef uint64_t u64;
typedef modulo<int, 998244353, modulo_storage::CONSTANT> modc; typedef moduloX<int> modx; typedef altruct::math::complex<double> cplx;
template<typename M> struct Mk { M id; M operator()(i64 v) const { return castOf(id, v); } };
struct MkI { i64 operator()(i64 v) const { return v; } };
static i64 V(i64 x) { return x; } static i64 V(const modc& x) { return x.v; } static i64 V(const modx& x) { return x.v; }
// runs body(maker, modulus or 0, primitive root)
template<typename F> static void with_ring(Ctx& c, bool ints, F body) {
    switch (c.below(ints ? 3 : 2)) { case 0: body(Mk<modc>{ modc(1) }, (i64)998244353, 3); break; case 1: { int k = (int)c.below(4), P = std::vector<int>{ 12289, 754974721, 257, 65537 }[k], g = std::vector<int>{ 11, 11, 3, 3 }[k]; c.show("modulus", P); body(Mk<modx>{ modx(1, P) }, (i64)P, g); break; } default: body(MkI(), (i64)0, 0); }
}
static std::vector<i64> arr(Ctx& c, int n, i64 P) { std::vector<i64> v(n); for (auto& x : v) x = P ? (c.coin() ? (i64)c.below(3) : c.range(0, P - 1)) : c.range(-1000000, 1000000); return v; }
PROP(lattice_convolutions, 480000, 12000000) {
    with_ring(c, true, [&](auto mk, i64 P, int) {
        typedef decltype(mk(1)) R; int kind = (int)c.below(7), l = (int)c.range(0, c.chance(1, 400) ? 10 : c.chance(1, 10) ? 7 : 4), n = 1 << l; if (kind == 3) n = (int)c.size_mostly(1, 20, 700, 100); auto f = arr(c, n, P), g = arr(c, n, P); int alias = (int)c.below(4); /* 1: r = f, 2: r = g, 3: r = f = g */ if (alias == 3) g = f; if (kind == 6) alias &= 1; c.show("kind", kind); c.show("n", n); c.show("f", f); c.show("g", g); c.show("alias", alias); c.nontrivial(n > 2); if (kind == 6) g = f;
        std::vector<i64> e(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int k = -1; switch (kind) { case 0: k = i & j; break; case 1: k = i | j; break; case 2: k = i ^ j; break; case 3: k = std::max(i, j); break; case 4: case 5: k = i & j ? -1 : i | j; break; } if (k >= 0) e[k] = P ? (i64)((e[k] + (i128)f[i] * g[j]) % P) : e[k] + f[i] * g[j]; }
        if (kind == 6) for (int i = 0; i < n; i++) for (int s = 0; s < n; s++) if ((s & i) == s) e[i] = P ? (e[i] + f[s]) % P : e[i] + f[s];
        std::vector<R> F, G, r(n, mk(c.coin() ? 0 : 5)); for (auto x : f) F.push_back(mk(x)); for (auto x : g) G.push_back(mk(x)); auto F0 = F, G0 = G; R* rp = alias == 1 || alias == 3 ? F.data() : alias == 2 ? G.data() : r.data(); R* gp = alias == 3 ? F.data() : G.data();
        auto eq = [&](const R* p, const char* w) { for (int i = 0; i < n; i++) CHECK_MSG(V(p[i]) == e[i], w << " at " << i << ": got " << V(p[i]) << " expected " << e[i]); };
        std::vector<R> s(n, mk(0));
        switch (kind) {
        case 0: slow_and_convolution(s.data(), F.data(), gp, l); eq(s.data(), "slow_and"); and_convolution(rp, F.data(), gp, l); eq(rp, "and"); break;
        case 1: slow_or_convolution(s.data(), F.data(), gp, l); eq(s.data(), "slow_or"); or_convolution(rp, F.data(), gp, l); eq(rp, "or"); break;
        case 2: slow_xor_convolution(s.data(), F.data(), gp, l); eq(s.data(), "slow_xor"); xor_convolution(rp, F.data(), gp, l); eq(rp, "xor"); break;
        case 3: slow_max_convolution(s.data(), F.data(), gp, n); eq(s.data(), "slow_max"); max_convolution(rp, F.data(), gp, n); eq(rp, "max"); break;
        case 4: case 5: slow_subset_convolution(s.data(), F.data(), gp, l); eq(s.data(), "slow_subset_convolution"); fast_subset_convolution(rp, F.data(), gp, l); eq(rp, "fast_subset_convolution"); break;
        default: slow_subset_sum(s.data(), F.data(), l); eq(s.data(), "slow_subset_sum"); fast_subset_sum(rp, F.data(), l); eq(rp, "fast_subset_sum"); { std::vector<R> b(n, mk(1)); if (c.coin()) { fast_subset_sum_inverse(b.data(), rp, l); } else { b.assign(rp, rp + n); fast_subset_sum_inverse(b.data(), b.data(), l); } for (int i = 0; i < n; i++) CHECK_MSG(V(b[i]) == f[i], "fast_subset_sum_inverse at " << i); }
        }
    });
}
static int root_order(i64 P) { int k = 1; while ((P - 1) % (k * 2) == 0 && k < (1 << 22)) k *= 2; return k; }
PROP(fourier_transform, 110000, 2750000) {
    with_ring(c, false, [&](auto mk, i64 P, int pr) {
        typedef decltype(mk(1)) R; int l = (int)c.range(0, c.chance(1, 20) ? 8 : 5), n = 1 << l; auto f = arr(c, n, P); i64 w = (i64)ref::powmod(pr, (P - 1) / n, P); if (n > 2 && c.coin()) w = (i64)ref::powmod(w, 2 * c.below(n / 2) + 1, P); c.show("f", f); c.show("root", w); c.nontrivial(n > 2);
        std::vector<R> a, d(n, mk(0)); for (auto x : f) a.push_back(mk(x)); auto b = a; fft_rec(d.data(), a.data(), n, mk(w)); fft(b.data(), n, mk(w)); for (int i = 0; i < n; i++) CHECK_EQ(V(a[i]), f[i]);
        for (int k = 0; k < n; k++) { i64 e = 0; for (int i = 0; i < n; i++) e = (i64)((e + (i128)f[i] * ref::powmod(w, (u64)i * k, P)) % P); CHECK_MSG(V(d[k]) == e, "fft_rec at " << k << ": " << V(d[k]) << " expected " << e); CHECK_MSG(V(b[k]) == e, "fft at " << k << ": " << V(b[k]) << " expected " << e); }
        i64 iw = (i64)ref::powmod(w, P - 2, P), in = (i64)ref::powmod(n, P - 2, P); fft(b.data(), n, mk(iw)); for (int i = 0; i < n; i++) CHECK_MSG((i64)ref::mulmod(V(b[i]), in, P) == f[i], "inverse fft at " << i);
    });
}
PROP(fourier_convolutions, 130000, 3250000) {
    with_ring(c, false, [&](auto mk, i64 P, int pr) {
        typedef decltype(mk(1)) R; int mx = P == 257 || P == 12289 ? 40 : c.chance(1, 20) ? 200 : 20, un = (int)c.range(1, mx), vn = (int)c.range(1, mx); auto u = arr(c, un, P), v = arr(c, vn, P); int ord = root_order(P); R root = mk((i64)ref::powmod(pr, (P - 1) / ord, P)); c.show("u", u); c.show("v", v); c.nontrivial(un > 1 && vn > 1); c.label("kernel longer than the list", un > vn);
        std::vector<R> U, W; for (auto x : u) U.push_back(mk(x)); for (auto x : v) W.push_back(mk(x)); int n = un + vn - 1; std::vector<i64> e(n, 0), ec(n, 0); for (int k = 0; k < n; k++) for (int i = 0; i < un; i++) { if (k - i >= 0 && k - i < vn) e[k] = (i64)((e[k] + (i128)u[i] * v[k - i]) % P); ec[k] = (i64)((ec[k] + (i128)u[i] * v[((k - i) % vn + vn) % vn]) % P); }
        int l = 1; while (l < un + 2 * (un + vn)) l *= 2; if (l > ord) return;
        auto r = convolution<R>(U.begin(), U.end(), W.begin(), W.end(), root, ord); CHECK_EQ((int)r.size(), n); for (int k = 0; k < n; k++) CHECK_MSG(V(r[k]) == e[k], "convolution at " << k << ": " << V(r[k]) << " expected " << e[k]);
        auto rc = cyclic_convolution<R>(U.begin(), U.end(), W.begin(), W.end(), root, ord); CHECK_EQ((int)rc.size(), n); for (int k = 0; k < n; k++) CHECK_MSG(V(rc[k]) == ec[k], "cyclic_convolution at " << k << ": " << V(rc[k]) << " expected " << ec[k]);
        int z = 1; while (z < un || z < vn) z *= 2; auto A = U, B = W; A.resize(z, mk(0)); B.resize(z, mk(0)); std::vector<R> D(z, mk(7)), S(z, mk(0)); slow_cyclic_convolution(S.data(), A.data(), B.data(), z); fft_cyclic_convolution(D.data(), A.data(), B.data(), z, root, ord); for (int k = 0; k < z; k++) { i64 x = 0; for (int i = 0; i < z; i++) { int j = (k - i + z) % z; if (i < un && j < vn) x = (i64)((x + (i128)u[i] * v[j]) % P); } CHECK_MSG(V(D[k]) == x, "fft_cyclic_convolution at " << k); CHECK_MSG(V(S[k]) == x, "slow_cyclic_convolution at " << k); }
    });
}
PROP(complex_convolutions_and_roots, 320000, 8000000) {
    int un = (int)c.range(1, 30), vn = (int)c.range(1, 30), n = un + vn - 1; std::vector<int> u(un), v(vn); for (auto& x : u) x = (int)c.range(-1000, 1000); for (auto& x : v) x = (int)c.range(-1000, 1000); SHOW(u); SHOW(v); c.nontrivial(un > 2 && vn > 2);
    int l = 1; while (l < n) l *= 2; auto w0 = complex_root_wrapper<double>((int)c.range(1, 64)); int more = (int)c.range(1, c.chance(1, 50) ? 4096 : 300); auto w1 = complex_root_wrapper<double>(more); CHECK(w1.size >= more && (w1.size & (w1.size - 1)) == 0);
    for (int t = 0; t < 4; t++) { auto& w = t % 2 ? w1 : w0; int k = (int)c.below(1 << 12), i = k % w.size; auto x = powT(w, k); cplx z = x; double a = 2 * acos(-1.0) * i / w.size; CHECK_MSG(std::abs(z.a - cos(a)) < 1e-9 && std::abs(z.b - sin(a)) < 1e-9, "root " << k << " of " << w.size << " is " << z.a << "+" << z.b << "i"); }
    auto w = complex_root_wrapper<double>(std::max(l, 2)); std::vector<cplx> U, W; for (int x : u) U.push_back(cplx(x)); for (int x : v) W.push_back(cplx(x)); auto r = convolution<cplx>(U.begin(), U.end(), W.begin(), W.end(), w, w.size); cplx g = w; double ang = 2 * acos(-1.0) / l; (void)g; auto r2 = convolution<cplx>(U.begin(), U.end(), W.begin(), W.end(), cplx(cos(ang), sin(ang)), l);
    CHECK_EQ((int)r.size(), n); for (int k = 0; k < n; k++) { i64 e = 0; for (int i = 0; i < un; i++) if (k - i >= 0 && k - i < vn) e += u[i] * v[k - i]; CHECK_MSG(std::abs(r[k].a - e) < 1e-3 && std::abs(r[k].b) < 1e-3, "root_wrapper convolution at " << k << ": " << r[k].a << " expected " << e); CHECK_MSG(std::abs(r2[k].a - e) < 1e-2, "complex convolution at " << k << ": " << r2[k].a << " expected " << e); }
}

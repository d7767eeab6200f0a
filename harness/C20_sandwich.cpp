// C20: see C20.h
#include "C20.h"
// b a ~b, negated when b is an odd product of reflections; b ~b has to be a scalar
struct sandwich { template<typename A, typename B> static void run(pbt::Ctx& c) {
    MV x = draw<A>(c), y = draw<B>(c); auto fix = [&](int to, ll num, ll den) { if (mk<B>::M >> to & 1) { if (den) y[to] = md(num * minv(den)); } };
    if (mk<B>::M == mk<p::blade024<F>>::M) { if (!y[0]) y[0] = 1; fix(15, md(y[12] * y[3] - y[10] * y[5] % P * -1 * -1 + y[6] * y[9]), y[0]); }
    MV bb = geo(y, rev(y)); if (mk<B>::M == mk<p::blade024<F>>::M && bb[15]) { y[15] = md(y[15] - bb[15] * minv(2 * y[0])); bb = geo(y, rev(y)); }
    if (mk<B>::M == mk<p::blade22<F>>::M && bb[15]) { for (int i : { 12, 10, 6 }) if (y[i]) { int o = 15 ^ i; MV z = y; z[o] = 0; ll s = geo(z, rev(z))[15]; z[o] = 1; ll d = md(geo(z, rev(z))[15] - s); y[o] = md(-s * minv(d)); break; } bb = geo(y, rev(y)); }
    if (mk<B>::M == mk<p::blade13<F>>::M && bb[15]) { for (int i : { 1, 2, 4, 8 }) if (y[i]) { int o = 15 ^ i; MV z = y; z[o] = 0; ll s = geo(z, rev(z))[15]; z[o] = 1; ll d = md(geo(z, rev(z))[15] - s); y[o] = md(-s * minv(d)); break; } bb = geo(y, rev(y)); }
    for (int i = 1; i < 16; i++) c.assume(bb[i] == 0); c.show("a", str(x)); c.show("b", str(y)); bool odd = (mk<B>::M & ~(1 << 1 | 1 << 2 | 1 << 4 | 1 << 8 | 1 << 7 | 1 << 11 | 1 << 13 | 1 << 14)) == 0; MV e = geo(geo(y, x), rev(y)); if (odd) e = neg(e); SAME("a % b", mk<A>::of(x) % mk<B>::of(y), e); c.nontrivial(e != MV{}); } };
PROP(pga_sandwich, 240000, 6000000) { static const auto t = table<sandwich, Versors>(All()); t[c.below(t.size())](c); }

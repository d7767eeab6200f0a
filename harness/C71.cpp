// C71: elapsed time on generated clocks, and the cycle clock.
#include "pbt.h"
#include <sched.h>
#include "altruct/chrono/chrono.h"
static int64_t now_ticks; template<typename R, int64_t N, int64_t D> struct fake { typedef R rep; typedef std::ratio<N, D> period; typedef std::chrono::duration<R, period> duration; typedef std::chrono::time_point<fake> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration((R)now_ticks)); } };
template<typename C> static void elapsed(pbt::Ctx& c, long double per) { int64_t a = c.range(-1000000000000LL, 1000000000000LL), d = c.coin() ? c.range(-1000, 1000) : c.range(-1000000000000LL, 1000000000000LL); if (sizeof(typename C::rep) == 4) { a %= 1000000; d %= 1000000; } SHOW(a); SHOW(d); now_ticks = a; auto t0 = C::now(); now_ticks = a + d; double s = altruct::chrono::since(t0); long double e = d * per; CHECK_MSG(std::fabs((long double)s - e) <= std::fabs(e) * 1e-15L * 4, "since gives " << s << " for " << (double)e << " s"); c.nontrivial(d != 0); }
PROP(elapsed_seconds, 30000000, 750000000) { switch (c.below(6)) { case 0: elapsed<fake<int64_t, 1, 1>>(c, 1); break; case 1: elapsed<fake<int64_t, 1, 1000>>(c, 1e-3L); break; case 2: elapsed<fake<int64_t, 1, 1000000000>>(c, 1e-9L); break; case 3: elapsed<fake<int64_t, 60, 1>>(c, 60); break; case 4: elapsed<fake<int32_t, 1, 3>>(c, 1.0L / 3); break; default: elapsed<fake<int64_t, 1, 2666666666>>(c, 1.0L / 2666666666LL); } }
PROP(cycle_clock, 22000000, 550000000) { static bool pinned = [] { cpu_set_t m; CPU_ZERO(&m); int k = sched_getcpu(); if (k >= 0) { CPU_SET(k, &m); sched_setaffinity(0, sizeof m, &m); } return true; }(); (void)pinned; // one core: one counter
    typedef altruct::chrono::rdtsc_clock<> C; typedef altruct::chrono::rdtsc_clock<1000> K; auto t0 = C::now(); auto t1 = C::now(); int spin = (int)c.below(200); for (volatile int i = 0; i < spin; i++); double s = altruct::chrono::since(t0), u = altruct::chrono::since(t1); auto t2 = C::now(); CHECK_MSG(t0 <= t1 && t1 <= t2, "the clock went backwards"); CHECK_MSG(s >= 0 && u >= 0, "negative elapsed time"); CHECK_MSG(s <= std::chrono::duration<double>(t2 - t0).count() * (1 + 1e-12), "since exceeds the span up to a later reading"); CHECK_EQ((std::chrono::duration_cast<std::chrono::duration<int64_t>>(typename C::duration(2666666666LL * 3)).count()), (int64_t)3); int64_t k = c.range(0, 1000000000); SHOW(k); CHECK_EQ((std::chrono::duration_cast<std::chrono::milliseconds>(typename K::duration(k)).count()), k); auto k0 = K::now(); CHECK(K::now() >= k0); CHECK(C::is_steady); c.nontrivial(spin > 0); }

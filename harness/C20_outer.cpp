// C20: see C20.h
#include "C20.h"
struct outer { template<typename A, typename B> static void run(pbt::Ctx& c) {
    MV x = draw<A>(c), y = draw<B>(c); c.show("a", str(x)); c.show("b", str(y)); const A a = mk<A>::of(x); const B b = mk<B>::of(y); SAME("a ^ b", a ^ b, wedge(x, y)); c.nontrivial(wedge(x, y) != MV{}); } };
PROP(pga_outer, 260000, 6500000) { static const auto t = table<outer, All>(All()); t[c.below(t.size())](c); }

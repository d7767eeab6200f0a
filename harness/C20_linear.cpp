// C20: see C20.h
#include "C20.h"
struct linear { template<typename A, typename B> static void run(pbt::Ctx& c) {
    MV x = draw<A>(c), y = draw<B>(c); c.show("a", str(x)); c.show("b", str(y)); const A a = mk<A>::of(x); const B b = mk<B>::of(y); SAME("a", a, x); SAME("a + b", a + b, add(x, y)); SAME("a - b", a - b, add(x, neg(y))); SAME("a", a, x); c.nontrivial(x != MV{} && y != MV{} && (mk<A>::M != mk<B>::M)); } };
PROP(pga_linear, 260000, 6500000) { static const auto t = table<linear, All>(All()); t[c.below(t.size())](c); }

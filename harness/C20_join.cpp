// C20: see C20.h
#include "C20.h"
struct regressive { template<typename A, typename B> static void run(pbt::Ctx& c) {
    MV x = draw<A>(c), y = draw<B>(c); c.show("a", str(x)); c.show("b", str(y)); const A a = mk<A>::of(x); const B b = mk<B>::of(y); SAME("a | b", a | b, dual(wedge(dual(x), dual(y))));  c.nontrivial(wedge(dual(x), dual(y)) != MV{}); } };
PROP(pga_join, 260000, 6500000) { static const auto t = table<regressive, All>(All()); t[c.below(t.size())](c); }

// C20: see C20.h
#include "C20.h"
struct inner { template<typename A, typename B> static void run(pbt::Ctx& c) {
    MV x = draw<A>(c), y = draw<B>(c); c.show("a", str(x)); c.show("b", str(y)); const A a = mk<A>::of(x); const B b = mk<B>::of(y); SAME("a & b", a & b, dot(x, y)); c.nontrivial(geo(x, y) != MV{}); c.label("wedge", wedge(x, y) != MV{}); c.label("join", wedge(dual(x), dual(y)) != MV{}); } };
PROP(pga_inner, 190000, 4750000) { static const auto t = table<inner, All>(All()); t[c.below(t.size())](c); }

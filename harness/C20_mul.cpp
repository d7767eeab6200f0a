// C20: see C20.h
#include "C20.h"
struct mul { template<typename A, typename B> static void run(pbt::Ctx& c) {
    MV x = draw<A>(c), y = draw<B>(c); c.show("a", str(x)); c.show("b", str(y)); const A a = mk<A>::of(x); const B b = mk<B>::of(y); SAME("a * b", a * b, geo(x, y)); c.nontrivial(geo(x, y) != MV{}); c.label("wedge", wedge(x, y) != MV{}); c.label("join", wedge(dual(x), dual(y)) != MV{}); } };
PROP(pga_geometric, 170000, 4250000) { static const auto t = table<mul, All>(All()); t[c.below(t.size())](c); }

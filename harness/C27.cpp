// C27: shunting yard conversion and evaluation against a precedence climbing parser.
#include "pbt.h"
#include <cmath>
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::parser::shunting_yard;
typedef infix_token::type_t TT; typedef infix_token Tok; typedef std::vector<Tok> Toks;
typedef operator_desc OD; static Tok tk(TT t, int id = 0) { Tok r; r.type = t; r.id = id; return r; }
// random well formed expression
struct Gen { pbt::Ctx& c; const std::vector<OD>& ops; std::vector<int> un, bi; int nfun, nopd; std::function<int(int)> arity; Toks out; int calls = 0;
    void primary(int d) { int k = d <= 0 ? 0 : (int)c.weighted({ 4, nfun ? 2 : 0, 2 }); if (k == 0) out.push_back(tk(TT::OPERAND, (int)c.below(nopd))); else if (k == 1) { int f = (int)c.below(nfun); calls++; out.push_back(tk(TT::FUNCTION, (int)ops.size() + f)); out.push_back(tk(TT::LEFT_PARENTHESIS)); int n = arity(f); for (int i = 0; i < n; i++) { if (i) out.push_back(tk(TT::SEPARATOR)); expr(d - 1); } out.push_back(tk(TT::RIGHT_PARENTHESIS)); } else { out.push_back(tk(TT::LEFT_PARENTHESIS)); expr(d - 1); out.push_back(tk(TT::RIGHT_PARENTHESIS)); } }
    void unary(int d) { while (un.size() && c.chance(1, 4)) out.push_back(tk(TT::OPERATOR, un[c.below(un.size())])); primary(d); }
    void expr(int d) { unary(d); int n = bi.empty() ? 0 : (int)c.below(d >= 2 ? 4 : 3); for (int i = 0; i < n; i++) { out.push_back(tk(TT::OPERATOR, bi[c.below(bi.size())])); unary(d - 1); } } };
// reference: precedence climbing, emitting postfix
struct Ref { const Toks& t; const std::vector<int>& prec; const std::vector<char>& right, &un; size_t i = 0; std::vector<postfix_token> out;
    void emit(bool op, int id, int n) { postfix_token p; p.type = op ? postfix_token::type_t::FUNCTION : postfix_token::type_t::OPERAND; p.id = id; p.num_args = n; out.push_back(p); }
    void prim() { Tok x = t[i]; if (x.type == TT::OPERAND) { i++; emit(false, x.id, 0); } else if (x.type == TT::FUNCTION) { i += 2; int n = 0; while (t[i].type != TT::RIGHT_PARENTHESIS) { if (t[i].type == TT::SEPARATOR) i++; expr(-1000000); n++; } i++; emit(true, x.id, n); } else if (x.type == TT::LEFT_PARENTHESIS) { i++; expr(-1000000); i++; } else { i++; expr(prec[x.id]); emit(true, x.id, 1); } }
    // parses operators that bind at least as tight as mn
    void expr(int mn) { prim(); while (i < t.size() && t[i].type == TT::OPERATOR && prec[t[i].id] >= mn) { int id = t[i].id; i++; expr(right[id] ? prec[id] : prec[id] + 1); emit(true, id, 2); } }
    void all() { expr(-1000000); while (i < t.size()) { i++; expr(-1000000); } } };
static std::string str(const std::vector<postfix_token>& p) { std::string s; for (auto& x : p) s += (x.type == postfix_token::type_t::OPERAND ? "a" + std::to_string(x.id) : "f" + std::to_string(x.id) + "/" + std::to_string(x.num_args)) + " "; return s; }
static std::string str(const Toks& t) { std::string s; for (auto& x : t) s += (x.type == TT::OPERAND ? "a" + std::to_string(x.id) : x.type == TT::OPERATOR ? "op" + std::to_string(x.id) : x.type == TT::FUNCTION ? "f" + std::to_string(x.id) : x.type == TT::LEFT_PARENTHESIS ? "(" : x.type == TT::RIGHT_PARENTHESIS ? ")" : ",") + " "; return s; }
PROP(random_grammars, 280000, 7000000) {
    // a random operator table; operators of one precedence share associativity, prefix operators have precedences of their own
    int nb = (int)c.range(0, 5), nu = (int)c.range(0, 2); std::vector<OD> ops; std::vector<int> prec; std::vector<char> right, un; std::vector<char> assoc(8); for (auto& x : assoc) x = c.coin(); for (int i = 0; i < nb + nu; i++) { bool u = i >= nb; int p = u ? (int)c.range(0, 8) * 2 + 1 : (int)c.range(0, 7) * 2; OD d; d.precedence = p - 6; d.arity = u ? OD::arity_t::UNARY : OD::arity_t::BINARY; bool r = u || assoc[p / 2]; d.associativity = r ? OD::assoc_t::RIGHT : OD::assoc_t::LEFT; CHECK_EQ(d.num_args(), u ? 1 : 2); ops.push_back(d); prec.push_back(p - 6); right.push_back(r); un.push_back(u); }
    std::vector<int> fa(3); for (auto& x : fa) x = (int)c.size_mostly(0, 3, 16, 40); Gen g{ c, ops, {}, {}, 3, 4, [&](int f) { return fa[f]; }, {} }; for (int i = 0; i < nb; i++) g.bi.push_back(i); for (int i = nb; i < nb + nu; i++) g.un.push_back(i); int ex = c.chance(1, 4) ? (int)c.range(2, 3) : 1; for (int i = 0; i < ex; i++) { if (i) g.out.push_back(tk(TT::SEPARATOR)); int deep = c.chance(1, 40) ? (int)c.range(1, 70) : 0, longer = c.chance(1, 40) && nb ? (int)c.range(1, 70) : 0; for (int k = 0; k < deep; k++) { if (nu && c.chance(1, 6)) g.out.push_back(tk(TT::OPERATOR, g.un[0])); g.out.push_back(tk(TT::LEFT_PARENTHESIS)); } g.expr((int)c.range(0, 3)); for (int k = 0; k < deep; k++) { g.out.push_back(tk(TT::RIGHT_PARENTHESIS)); if (nb && c.chance(1, 6)) { g.out.push_back(tk(TT::OPERATOR, g.bi[0])); g.primary(0); } } for (int k = 0; k < longer; k++) { g.out.push_back(tk(TT::OPERATOR, g.bi[c.below(g.bi.size())])); g.unary(1); } } c.show("tokens", str(g.out)); SHOW(prec); c.show("right", std::vector<int>(right.begin(), right.end())); SHOW(fa);
    Ref r{ g.out, prec, right, un }; r.all(); auto got = infix_to_postfix<>(g.out, ops); CHECK_EQ(str(got), str(r.out)); c.nontrivial(g.out.size() > 6); c.label("function calls", g.calls > 0); c.label("several expressions", ex > 1);
    // evaluation: operands are strings, operators build a term
    std::vector<std::string> opd = { "w", "x", "y", "z" }; std::vector<std::function<std::string(std::string*)>> ev; for (int i = 0; i < nb + nu + 3; i++) { int n = i < nb ? 2 : i < nb + nu ? 1 : fa[i - nb - nu]; ev.push_back([i, n](std::string* a) { std::string s = "f" + std::to_string(i) + "("; for (int k = 0; k < n; k++) s += a[k] + ","; return s + ")"; }); } std::vector<std::string> st; for (auto& p : r.out) if (p.type == postfix_token::type_t::OPERAND) st.push_back(opd[p.id]); else { std::vector<std::string> a(st.end() - p.num_args, st.end()); st.resize(st.size() - p.num_args); a.push_back(""); st.push_back(ev[p.id](a.data())); } CHECK_EQ((int)st.size(), ex); CHECK_EQ(evaluate_postfix(got, opd, ev), st);
}
// C-like precedence for the integer operators, evaluated by an independent evaluator
template<typename T> struct Bad {};
PROP(integer_expressions, 560000, 14000000) {
    typedef integer_math<int64_t> IM; enum { NEG, MUL, DIV, MOD, ADD, SUB, SHL, SHR, ROL, ROR, LTE, GTE, LT, GT, EQ, NEQ, BNOT, BAND, BXOR, BOR, LNOT, LAND, LXOR, LOR }; CHECK((int)IM::NEG == NEG && (int)IM::LOG_OR == LOR); std::vector<int> prec = { 100, 12, 12, 12, 11, 11, 10, 10, 10, 10, 9, 9, 9, 9, 8, 8, 100, 7, 6, 5, 100, 4, 3, 2 }; std::vector<char> right(24, 0), un(24, 0); for (int i : { NEG, BNOT, LNOT }) right[i] = un[i] = 1; auto& ops = IM::operators(); CHECK_EQ((int)ops.size(), 24); for (int i = 0; i < 24; i++) CHECK_EQ(ops[i].arity == OD::arity_t::UNARY, un[i] != 0); Gen g{ c, ops, {}, {}, 0, 6, nullptr, {} }; for (int i = 0; i < 24; i++) if (i != ROL && i != ROR) (un[i] ? g.un : g.bi).push_back(i); g.expr((int)c.range(1, 3)); c.show("tokens", str(g.out)); std::vector<int64_t> opd(6); for (auto& x : opd) x = c.range(-9, 9); SHOW(opd);
    Ref r{ g.out, prec, right, un }; r.all(); auto got = infix_to_postfix<>(g.out, ops); CHECK_EQ(str(got), str(r.out)); std::vector<int64_t> st; bool ok = true; auto big = [](int64_t x) { return x > (int64_t(1) << 30) || x < -(int64_t(1) << 30); }; for (auto& p : r.out) { if (p.type == postfix_token::type_t::OPERAND) { st.push_back(opd[p.id]); continue; } int64_t b = 0, a; if (p.num_args == 2) b = st.back(), st.pop_back(); a = st.back(); st.pop_back(); int64_t v = 0; switch (p.id) { case NEG: v = -a; break; case MUL: v = a * b; break; case DIV: case MOD: if (!b) { ok = false; break; } v = p.id == DIV ? a / b : a - a / b * b; break; case ADD: v = a + b; break; case SUB: v = a - b; break; case SHL: if (b < 0 || b > 20 || a < 0) { ok = false; break; } v = a * (int64_t(1) << b); break; case SHR: if (b < 0 || b > 40) { ok = false; break; } v = a >> b; break; case LTE: v = a <= b; break; case GTE: v = b <= a; break; case LT: v = a < b; break; case GT: v = b < a; break; case EQ: v = a == b; break; case NEQ: v = !(a == b); break; case BNOT: v = -1 - a; break; case BAND: v = a & b; break; case BXOR: v = (a | b) - (a & b); break; case BOR: v = a | b; break; case LNOT: v = a == 0; break; case LAND: v = a != 0 && b != 0; break; case LXOR: v = (a != 0) != (b != 0); break; case LOR: v = a != 0 || b != 0; break; } if (!ok || big(v)) { ok = false; break; } st.push_back(v); } if (!ok) { c.nontrivial(false); return; } CHECK_EQ(evaluate_postfix(got, opd, IM::evaluators()), st); c.nontrivial(g.out.size() > 5);
    int64_t a = c.range(0, 1000000), e = c.range(0, 3); std::vector<int64_t> x{ a, e }; CHECK_EQ(IM::evaluators()[IM::POW](x.data()), e == 0 ? 1 : e == 1 ? a : e == 2 ? a * a : a * a * a); int64_t q = IM::evaluators()[IM::SQRT](x.data()); CHECK(q * q <= a && (q + 1) * (q + 1) > a);
}
template<typename T> static void fieldExpr(pbt::Ctx& c, const std::vector<OD>& ops, const std::vector<std::function<T(T*)>>& ev, std::function<T()> gen, std::function<bool(T, T)> same, std::function<bool(T)> zero) {
    CHECK(ops.size() == 5 && ev.size() >= 5); std::vector<int> prec = { 3, 2, 2, 1, 1 }; std::vector<char> right = { 1, 0, 0, 0, 0 }, un = right; Gen g{ c, ops, { 0 }, { 1, 2, 3, 4 }, 0, 5, nullptr, {} }; g.expr((int)c.range(1, 3)); c.show("tokens", str(g.out)); std::vector<T> opd; for (int i = 0; i < 5; i++) opd.push_back(gen()); Ref r{ g.out, prec, right, un }; r.all(); auto got = infix_to_postfix<>(g.out, ops); CHECK_EQ(str(got), str(r.out)); std::vector<T> st; for (auto& p : r.out) { if (p.type == postfix_token::type_t::OPERAND) { st.push_back(opd[p.id]); continue; } T b = st.back(); if (p.num_args == 2) st.pop_back(); T a = st.back(); st.pop_back(); if (p.id == 2 && zero(b)) { c.nontrivial(false); return; } st.push_back(p.id == 0 ? T(0) - a : p.id == 1 ? a * b : p.id == 2 ? a / b : p.id == 3 ? a + b : a - b); } auto res = evaluate_postfix(got, opd, ev); CHECK_EQ(res.size(), st.size()); for (size_t i = 0; i < st.size(); i++) CHECK_MSG(same(res[i], st[i]), "value differs"); c.nontrivial(g.out.size() > 5); }
typedef altruct::math::modulo<int, 1000000007, altruct::math::modulo_storage::CONSTANT> mod;
PROP(basic_expressions, 650000, 16250000) { if (c.coin()) fieldExpr<mod>(c, basic_math<mod>::operators(), basic_math<mod>::evaluators(), [&] { return mod((int)c.range(1, 50)); }, [](mod a, mod b) { return a.v == b.v; }, [](mod a) { return a.v == 0; }); else fieldExpr<double>(c, floating_point_math<double>::operators(), floating_point_math<double>::evaluators(), [&] { return (double)c.range(-100, 100) / 8; }, [](double a, double b) { return a == b || (a != a && b != b); }, [](double a) { return a == 0; }); }
PROP(float_functions, 8600000, 215000000) { typedef floating_point_math<double> F; auto& e = F::evaluators(); double x[2] = { (double)c.range(-4000, 4000) / 1000, (double)c.range(-3000, 3000) / 1000 }; c.show("x", x[0]); c.show("y", x[1]); c.nontrivial(true); auto same = [](double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)); }; struct { int id; double v; } t[] = { { F::SQRT, std::sqrt(x[0]) }, { F::POW, std::pow(x[0], x[1]) }, { F::EXP, std::exp(x[0]) }, { F::LOG, std::log(x[0]) }, { F::SIN, std::sin(x[0]) }, { F::COS, std::cos(x[0]) }, { F::TAN, std::tan(x[0]) }, { F::SINH, std::sinh(x[0]) }, { F::COSH, std::cosh(x[0]) }, { F::TANH, std::tanh(x[0]) }, { F::ASIN, std::asin(x[0]) }, { F::ACOS, std::acos(x[0]) }, { F::ATAN, std::atan(x[0]) }, { F::ATAN2, std::atan2(x[0], x[1]) }, { F::ASINH, std::asinh(x[0]) }, { F::ACOSH, std::acosh(x[0]) }, { F::ATANH, std::atanh(x[0]) } }; for (auto& q : t) CHECK_MSG(same(e[q.id](x), q.v), "function " << q.id << " is " << e[q.id](x) << " should be " << q.v); }

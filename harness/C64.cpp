// C64: tokens extracted from streams.
#include "pbt.h"
#include <sstream>
#include <cctype>
#include "altruct/io/stream_tokenizer.h"
using namespace altruct::io::stream_tokenizer;
static bool isws(char x) { return x == ' ' || (x >= '\t' && x <= '\r'); }
// single tokens: white space is skipped, then the longest run of allowed characters is taken and nothing else is consumed
template<typename P> static void single(pbt::Ctx& c, std::function<bool(char)> ok) {
    std::string s; size_t n = c.below(14); for (size_t i = 0; i < n; i++) s += c.pick<char>({ '0', '1', 'a', 'Z', '9', ',', ';', ' ', '\n', '-', '_', '2', '\t' }); if (c.chance(1, 40)) for (int i = (int)c.range(1, 3); i > 0; i--) s += std::string(c.range(50, 700), c.pick<char>({ '0', 'a', 'Z', ' ', '-' })) + c.pick<char>({ ',', ';', 'b', '_', '\n' }); n = s.size(); c.show("text", s); std::istringstream is(s); bool noskip = c.coin(); if (noskip) is >> std::noskipws; size_t p = 0; token<P> t; int rounds = (int)c.range(1, 6); for (int k = 0; k < rounds; k++) { t.s = "old"; is >> t; while (p < s.size() && isws(s[p])) p++; std::string e; while (p < s.size() && ok(s[p])) e += s[p++]; CHECK_EQ(t.s, e); CHECK_EQ(bool(is), p < s.size()); if (!is) break; CHECK_EQ(is.peek(), (int)(unsigned char)s[p]); is.get(); p++; if (p == s.size()) break; } CHECK_EQ(bool(is.flags() & std::ios_base::skipws), !noskip); c.nontrivial(n > 4); }
PROP(single_token, 6900000, 172500000) { switch (c.below(7)) { case 0: single<allowed_p<'0', '1', '2'>>(c, [](char x) { return x >= '0' && x <= '2'; }); break; case 1: single<delimited_p<',', ';'>>(c, [](char x) { return x != ',' && x != ';'; }); break; case 2: single<alphanum_p>(c, [](char x) { return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); }); break; case 3: single<not_p<alphanum_p>>(c, [](char x) { return !((x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z')); }); break; case 4: single<not_p<allowed_p<','>>>(c, [](char x) { return x != ','; }); break; case 5: single<allowed_p<'a'>>(c, [](char x) { return x == 'a'; }); break; default: single<not_p<delimited_p<'-', '_'>>>(c, [](char x) { return x == '-' || x == '_'; }); } }
PROP(predicates, 18000000, 450000000) { char x = (char)c.range(0, 127); c.show("char", (int)x); bool an = (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); CHECK_EQ(alphanum_p::eval(x), an); CHECK_EQ((not_p<alphanum_p>::eval(x)), !an); bool in = x == 'a' || x == ' ' || x == '\0'; CHECK_EQ((allowed_p<'a', ' ', '\0'>::eval(x)), in); CHECK_EQ((delimited_p<'a', ' ', '\0'>::eval(x)), !in); CHECK(!(allowed_p<>::eval(x)) && (delimited_p<>::eval(x))); c.nontrivial(true); }
// lists
template<typename TS> static void list(pbt::Ctx& c, const std::string& word, const std::string& delim, bool inner_space) {
    int n = (int)c.size_mostly(1, 7, 120, 60); std::vector<std::string> v; std::string s; if (c.chance(1, 4)) s = std::string(c.range(1, 3), c.coin() ? ' ' : '\n'); bool tail = false; for (int i = 0; i < n; i++) { std::string w = c.str(1, 5, word); if (inner_space && c.chance(1, 3)) w += " " + c.str(1, 3, word); if (c.chance(1, 5)) w = c.str(30, c.chance(1, 20) ? 600 : 60, word); v.push_back(w); s += w; if (i + 1 < n || (tail = c.chance(1, 4))) { s += c.str(1, 3, delim); if (c.chance(1, 4)) s += c.pick<char>({ ' ', '\n', '\t' }); } } c.show("text", s); std::istringstream is(s); bool noskip = c.coin(); if (noskip) is >> std::noskipws; TS t; t.v.resize(c.below(3)); is >> t; auto got = unbox_tokens(t); if (tail && got.size() == v.size() + 1 && got.back().empty()) got.pop_back(); SHOW(v); CHECK_EQ(got, v); CHECK_EQ(bool(is.flags() & std::ios_base::skipws), !noskip); auto len = unbox_tokens<int>(t, [](const std::string& x) { return (int)x.size(); }); CHECK(len.size() >= v.size()); for (size_t i = 0; i < v.size(); i++) CHECK_EQ(len[i], (int)v[i].size()); c.nontrivial(n > 2); c.label("trailing delimiter", tail); }
PROP(token_lists, 930000, 23250000) { switch (c.below(6)) { case 0: list<tokens_delimited_comma>(c, "ab1;-", ",", true); break; case 1: list<tokens_delimited_semicolon>(c, "ab1,-", ";", true); break; case 2: list<tokens_delimited_space>(c, "ab1,;+", " ", false); break; case 3: list<tokens_allowed<alphanum_p>>(c, "ab12XYz", ":,-;. ", false); break; case 4: list<tokens_delimited<'X', 'Y'>>(c, "abc19,", "XY", true); break; default: list<tokens_allowed<allowed_p<'0', '1'>>>(c, "01", ",a2", false); } }
template<typename T> static void numbers(pbt::Ctx& c) { int n = (int)c.size_mostly(1, 8, 200, 60); std::vector<T> v; std::string s; char d = c.pick<char>({ ' ', ',', ';', '/' }); for (int i = 0; i < n; i++) { v.push_back(c.any<T>()); if (i) { if (d == ' ') s += c.str(1, 3, " "); else { s += d; if (c.chance(1, 3)) s += " "; } } else if (c.chance(1, 4)) s += "  "; s += std::to_string(v.back()); } c.show("text", s); if (d == ' ' && false) s += " "; std::istringstream is(s); tokens<T, char> t; is >> t; SHOW(v); CHECK_EQ(t.v, v); CHECK(is.flags() & std::ios_base::skipws); c.nontrivial(n > 2); }
PROP(number_lists, 1700000, 42500000) { if (c.coin()) numbers<int>(c); else numbers<int64_t>(c); }

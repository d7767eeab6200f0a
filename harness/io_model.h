// Shared by C60-C62: a model of formatted reading from a byte string, and of formatted writing.
#pragma once
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <climits>
#include <sstream>
#include <memory>
namespace iom {
struct Model { std::string s; size_t pos = 0; bool eof = false;
    size_t rem() const { return s.size() - pos; }
    int get() { if (pos >= s.size()) { eof = true; return -1; } return (unsigned char)s[pos++]; }
    int peek() const { return pos < s.size() ? (unsigned char)s[pos] : -1; }
    int look() { int x = peek(); if (x == -1) eof = true; return x; }
    void ws() { while (look() != -1 && peek() <= 0x20) pos++; }
    std::string word() { ws(); std::string r; while (look() > 0x20) r += s[pos++]; return r; }
    std::string line(char d) { std::string r; int x; while ((x = get()) != -1 && (char)x != d) r += (char)x; return r; }
    int sign() { int x = look(); if (x == '-' || x == '+') { pos++; return x == '-' ? -1 : 1; } return 1; }
    std::string digits() { std::string r; while (look() >= '0' && peek() <= '9') r += s[pos++]; return r; } };
inline std::string bytes(pbt::Ctx& c, int maxlen, int kind) { std::string r; size_t n = c.below(maxlen + 1); for (size_t i = 0; i < n; i++) switch (kind) { case 0: r += (char)c.below(256); break; case 1: r += c.pick<char>({ 'a', 'b', '7', '0', '-', '+', ' ', '\n', '\t', '.', 'e' }); break; default: r += c.pick<char>({ 'a', '5', ' ', '\n', '\0', '\x7f', '\x80', '\xff', '\xc3', '\x1f', '!', '-' }); } return r; }
// a text of a number with its value
struct Num { std::string text; long double val; };
inline Num gen_real(pbt::Ctx& c, bool flt) { Num r; std::string t; if (c.chance(1, 3)) t += c.coin() ? "-" : "+"; bool lng = c.chance(1, 12); int a = (int)c.below(flt ? 6 : lng && c.coin() ? 40 : 12), b = (int)c.below(lng ? flt ? 24 : 60 : flt ? 6 : 12); if (a + b == 0) a = 1; for (int i = 0; i < a; i++) t += (char)('0' + c.below(10)); if (b || c.chance(1, 4)) { t += "."; for (int i = 0; i < b; i++) t += (char)('0' + c.below(10)); } if (c.chance(1, 3)) { t += c.coin() ? "e" : "E"; int s = (int)c.below(3); if (s) t += s == 1 ? "-" : "+"; int e = (int)c.below(flt ? 20 : 250); if (c.coin()) e %= 10; t += std::to_string(e); } r.text = t; r.val = strtold(t.c_str(), nullptr); return r; }
inline bool close_to(long double got, long double want, long double rel) { return std::fabs(got - want) <= rel * std::fabs(want); }
// [-]digits[.digits][e(+|-)ddd], with exactly prec digits after the point and, in scientific mode, one digit before it
inline std::string bad_number(const std::string& s, int prec, bool sci) { size_t i = 0; if (i < s.size() && s[i] == '-') i++; size_t d0 = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; size_t nint = i - d0; if (nint < 1) return "no integer digits"; if (sci && nint != 1) return "mantissa is not one digit"; if (prec) { if (i >= s.size() || s[i] != '.') return "no point where expected"; i++; size_t f0 = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if ((int)(i - f0) != prec) return "wrong number of decimals"; } if (sci) { if (i >= s.size() || s[i] != 'e') return "no exponent"; i++; if (i >= s.size() || (s[i] != '+' && s[i] != '-')) return "no exponent sign"; i++; size_t e0 = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i - e0 < 3) return "short exponent"; } if (i != s.size()) return "unexpected character"; return ""; }
inline double gen_double(pbt::Ctx& c) { double f; switch (c.below(7)) { case 0: f = (double)c.range(0, 2000) / 8; break; case 1: f = c.real(0, 1); break; case 2: f = (double)c.range(0, 1000000) / std::pow(10.0, (double)c.range(0, 9)); break; case 3: f = std::pow(10.0, (double)c.range(-12, 15)) * (c.coin() ? 1 : 1 - std::pow(10.0, -(double)c.range(1, 14))); break; case 4: f = c.real(1, 10) * std::pow(10.0, (double)c.range(-30, 30)); break; case 5: f = c.real(1, 10) * std::pow(10.0, (double)c.range(-290, 307)); break; default: { double p = std::pow(10.0, -(double)c.range(0, 9)); f = (double)c.range(0, 100000) * p + p / 2 + (c.coin() ? p * 1e-9 : -p * 1e-9) * (double)c.below(3); } } return c.chance(1, 3) ? -f : f; }
template<typename F> void check_real(pbt::Ctx& c, const std::string& s, F f, int prec, bool sci) { std::string b = bad_number(s, prec, sci); CHECK_MSG(b.empty(), "wrote " << s << " for " << (long double)f << ": " << b); long double got = strtold(s.c_str(), nullptr), unit = std::pow(10.0L, -prec); if (sci) { size_t e = s.find('e'); unit *= std::pow(10.0L, std::atoi(s.c_str() + e + 1)); } long double err = std::fabs(got - (long double)f); CHECK_MSG(err <= unit * 0.500001L + std::fabs((long double)f) * 2e-14L, "wrote " << s << " for " << (long double)f); if (sci && f != 0) CHECK_MSG(s[s[0] == '-'] != '0' || std::fabs((long double)f) < unit * 10, "mantissa of " << s << " starts with 0"); }
}

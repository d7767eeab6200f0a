// C61: writers deliver exactly the bytes that were written, in order.
#include "io_model.h"
#include "altruct/io/writer.h"
#include "altruct/io/reader.h"
using namespace altruct::io;
struct Sink { FILE* f = nullptr; char* mem = nullptr; size_t len = 0; std::ostringstream os; std::vector<char> buf; std::unique_ptr<writer> w; int k; size_t cap = 0;
    Sink(pbt::Ctx& c, size_t cap = 100000) : cap(cap) { k = (int)c.below(3); c.show("sink", k); if (k == 0) { f = open_memstream(&mem, &len); w.reset(new file_writer(f)); } else if (k == 1) w.reset(new stream_writer(os)); else { buf.assign(cap, '\x5a'); w.reset(new string_writer(buf.data(), cap)); } }
    // the bytes delivered so far; for the string sink the part that starts with `expected` is compared
    std::string got(size_t n) { if (k == 0) { fflush(f); return std::string(mem, len); } if (k == 1) return os.str(); return std::string(buf.data(), std::min(n, cap)); }
    bool clean_after(size_t n) { if (k != 2) return true; for (size_t i = n; i < cap; i++) if (buf[i] != '\x5a') return false; return true; }
    ~Sink() { w.reset(); if (f) { fclose(f); free(mem); } } };
PROP(plain_writers, 2600000, 65000000) {
    size_t cap = c.below(30); SHOW(cap); Sink s(c, cap); std::string exp; int n = (int)c.range(1, 10); for (int i = 0; i < n; i++) { int op = (int)c.below(3); if (op == 0) { char x = (char)c.below(256); c.show("write_char", (int)x); s.w->write_char(x).write_char('z'); exp += x; exp += 'z'; } else if (op == 1) { std::string t = iom::bytes(c, 12, 0); c.show("write", t); s.w->write(t.data(), t.size()); exp += t; } else { s.w->flush(); if (s.k != 2) CHECK_EQ(s.got(0), exp); } } s.w->flush(); std::string e = s.k == 2 ? exp.substr(0, cap) : exp; CHECK_EQ(s.got(e.size()), e); CHECK_MSG(s.clean_after(e.size()), "bytes beyond the written ones were changed"); c.nontrivial(exp.size() > 5); c.label("overflowing string", s.k == 2 && exp.size() > cap); }
template<typename I> static std::string digits(I v, int len) { bool neg = v < 0; unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v; std::string r; while (u) r += (char)('0' + (int)(u % 10)), u /= 10; while ((int)r.size() < len) r += '0'; if (neg) r += '-'; std::reverse(r.begin(), r.end()); return r; }
template<typename I> static void integral(pbt::Ctx& c, simple_writer& w, std::string& exp) { I v = c.any<I>(); int len = c.chance(1, 2) ? 1 : (int)c.range(0, 45); if (len == 0 && v == 0 && c.coin()) len = 1; c.show("integral", std::make_pair(digits(v, 1), len)); if (len == 1 && c.coin()) w.template write_integral_number<I>(v); else w.template write_integral_number<I>(v, len); exp += digits(v, len); }
PROP(operations, 140000, 3500000) {
    size_t cap = c.chance(1, 5) ? 5000 : c.range(1, 14); SHOW(cap); Sink s(c); std::string exp; size_t flushed = 0; { simple_writer w(*s.w, cap); simple_writer_stream st(w); CHECK_EQ(w.available(), cap); int n = (int)c.range(1, 20); for (int i = 0; i < n; i++) { int op = (int)c.below(15); c.show("op", op); switch (op) {
        case 0: { char x = (char)c.below(256); if (c.coin()) w.write_char(x); else st << x; exp += x; break; }
        case 1: { std::string t = iom::bytes(c, 40, 0); SHOW(t); w.write(t.data(), t.size()); exp += t; break; }
        case 2: { std::string t = iom::bytes(c, 20, 2); SHOW(t); if (c.coin()) w.write_string(t); else st << t; exp += t; break; }
        case 3: { std::string t = iom::bytes(c, 20, 1); SHOW(t); w.write_string(t.c_str()).write_string(t); exp += t + t; break; }
        case 4: { int v = c.any<int>(); SHOW(v); if (c.coin()) w.write_int(v); else st << v; exp += std::to_string(v); break; }
        case 5: { long long v = c.any<int64_t>(); SHOW(v); if (c.coin()) w.write_ll(v); else if (c.coin()) st << (long)v; else st << v; exp += std::to_string(v); break; }
        case 6: switch (c.below(6)) { case 0: integral<int8_t>(c, w, exp); break; case 1: integral<uint16_t>(c, w, exp); break; case 2: integral<uint32_t>(c, w, exp); break; case 3: integral<int64_t>(c, w, exp); break; case 4: integral<uint64_t>(c, w, exp); break; default: integral<int32_t>(c, w, exp); } break;
        case 7: { w.flush(); CHECK_EQ(s.got(exp.size()), exp); CHECK_EQ(w.available(), cap); break; }
        case 8: { size_t k = c.below(20), b = w.available(); SHOW(k); size_t a = w.reserve(k); CHECK_EQ(a, b >= k ? b : cap); CHECK_EQ(w.available(), a); break; }
        case 9: { size_t k = c.range(1, 12); SHOW(k); char* p = w.data(k); CHECK_EQ(p != nullptr, k <= cap); if (p) { CHECK(w.available() >= k); std::string t = std::string(c.below(k), (char)('a' + i)); snprintf(p, w.available() + 1, "%s", t.c_str()); w.advance(); exp += t; } break; }
        case 10: { size_t b = w.available(); char* p = w.data(); CHECK(p); CHECK_EQ(w.available(), b); if (b > 1) { int v = (int)c.range(0, 9); snprintf(p, b, "%d", v); w.advance(); exp += std::to_string(v); CHECK_EQ(w.available(), b - 1); } break; }
        case 11: { w.write_string("ab").write_int(7).write_ll(-1).write_string(std::string("c")).write_char('d').write("ef", 2).flush(); exp += "ab7-1cdef"; break; }
        case 12: { st << 5 << std::string("x") << -6L << 7LL << ' '; exp += "5x-67 "; break; }
        default: { double f = (double)c.range(-1000, 1000) / 4; int p = (int)c.range(2, 6); char b[64]; snprintf(b, 64, "%.*f", p, f); if (p == 6 && c.coin()) { if (c.coin()) st << f; else st << (float)f; } else if (c.coin()) w.write_double(f, p); else w.write_float((float)f, p); exp += b; } }
        CHECK_MSG(w.available() <= cap, "more space than the capacity"); size_t pend = cap - w.available(); CHECK_MSG(pend <= exp.size() && exp.size() - pend >= flushed, "pending " << pend); flushed = exp.size() - pend; CHECK_EQ(s.got(flushed), exp.substr(0, flushed)); } }
    CHECK_EQ(s.got(exp.size()), exp); CHECK(s.clean_after(exp.size())); c.nontrivial(exp.size() > 15); c.label("output larger than the buffer", exp.size() > cap); }
PROP(numbers, 5000000, 125000000) {
    std::ostringstream os; double f = iom::gen_double(c); float g = (float)c.range(-100000, 100000) / (float)std::pow(10.0, (double)c.range(0, 6)); bool sci = c.chance(1, 3), flt = c.chance(1, 5); if (!sci && std::fabs(f) > 1e40) f = std::fmod(f, 1e6); int prec = (int)c.range(0, 13); SHOW(f); SHOW(g); SHOW(prec); SHOW(sci); SHOW(flt); { stream_writer o(os); simple_writer w(o, 16); if (flt) w.write_float(g, prec, sci); else w.write_double(f, prec, sci); } if (flt) iom::check_real(c, os.str(), g, prec, sci); else iom::check_real(c, os.str(), f, prec, sci); if (!flt && !sci && f == 0) CHECK_EQ(os.str(), prec ? "0." + std::string(prec, '0') : "0"); c.nontrivial(prec > 0 && f != 0); c.label("scientific", sci); }
// what is written is read back
PROP(round_trip, 1900000, 47500000) {
    std::ostringstream os; struct V { int k; int64_t i; std::string w; double f; int p; }; int n = (int)c.range(1, 8); std::vector<V> vs; { stream_writer o(os); simple_writer w(o, c.range(1, 20)); for (int i = 0; i < n; i++) { V v{ (int)c.below(4), 0, "", 0, 0 }; switch (v.k) { case 0: v.i = c.any<int>(); w.write_int((int)v.i); break; case 1: v.i = c.any<int64_t>(); w.write_ll(v.i); break; case 2: v.w = std::string(1 + c.below(6), 'a'); for (auto& x : v.w) x = (char)c.range(0x21, 255); w.write_string(v.w); break; default: v.f = iom::gen_double(c); v.p = (int)c.range(1, 12); w.write_double(v.f, v.p, true); } w.write_char(c.coin() ? ' ' : '\n'); vs.push_back(v); } }
    c.show("text", os.str()); std::istringstream is(os.str()); stream_reader in(is); simple_reader r(in, c.range(1, 20)); for (auto& v : vs) switch (v.k) { case 0: CHECK_EQ((int64_t)r.read_int(), v.i); break; case 1: CHECK_EQ((int64_t)r.read_ll(), v.i); break; case 2: CHECK_EQ(r.read_string(), v.w); break; default: { double x = r.read_double(); CHECK_MSG(std::fabs(x - v.f) <= std::fabs(v.f) * (std::pow(10.0, -v.p) * 0.5001 + 3e-14), "read back " << x << " for " << v.f); } } c.nontrivial(n > 2); }

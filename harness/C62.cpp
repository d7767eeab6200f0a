// C62: fast_read and fast_write move exactly the bytes of the file and agree with the formatted model.
#include "io_model.h"
#include "altruct/io/fast_io.h"
using namespace altruct::io; using iom::Model;
struct In { std::string s; FILE* f; In(const std::string& x) : s(x) { f = s.empty() ? fopen("/dev/null", "r") : fmemopen(&s[0], s.size(), "r"); } ~In() { fclose(f); } };
struct Out { FILE* f; char* mem = nullptr; size_t len = 0; Out() { f = open_memstream(&mem, &len); } std::string got() { fflush(f); return std::string(mem, len); } ~Out() { fclose(f); free(mem); } };
PROP(reading, 710000, 17750000) {
    Model m; m.s = iom::bytes(c, 60, (int)c.below(3)); c.show("content", m.s); size_t cap = c.chance(1, 5) ? 1000 : c.range(1, 12); SHOW(cap); In in(m.s); fast_read r(in.f, cap); bool can_unread = false, filled = false; int n = (int)c.range(1, 25); CHECK_EQ(r.available(), (size_t)0);
    for (int i = 0; i < n; i++) { int op = (int)c.below(12); c.show("op", op); bool unread_next = false; switch (op) {
        case 0: case 1: { int e = m.get(); CHECK_EQ(r.read_char(), e); unread_next = e != -1; break; }
        case 2: if (can_unread) { r.unread_char(); m.pos--; } break;
        case 3: { size_t k = c.below(15); SHOW(k); size_t a = r.reserve(k); CHECK_EQ(a, r.available()); CHECK_MSG(a <= m.rem() && a <= cap && a >= std::min(k, std::min(cap, m.rem())), "reserve(" << k << ") = " << a); size_t q = c.below(a + 1); SHOW(q); r.skip(q); m.pos += q; CHECK_EQ(r.available(), a - q); if (k) filled = true; break; }
        case 4: { size_t k = c.below(15); SHOW(k); const char* p = r.data(k); CHECK_EQ(p != nullptr, k <= r.available()); if (k <= std::min(cap, m.rem())) CHECK_MSG(p, "data(" << k << ") is null"); if (p) { if (k) filled = true; size_t a = r.available(); CHECK(a >= k && a <= m.rem()); CHECK_MSG(memcmp(p, m.s.data() + m.pos, a) == 0, "available data differs"); if (filled) CHECK_MSG(p[a] == 0, "the data is not terminated"); r.counter() = (int)c.below(a + 1); c.show("cnt", r.counter()); m.pos += r.counter(); r.advance(); CHECK_EQ(r.counter(), 0); } break; }
        case 5: { size_t a = r.refill(); CHECK_EQ(a, std::min(cap, m.rem())); filled = true; break; }
        case 6: { std::string e = m.word(); CHECK_EQ(r.read_string(), e); break; }
        case 7: m.ws(); r.skip_whitespaces(); break;
        case 8: { int e = m.sign(); CHECK_EQ(r.read_sign(), e); break; }
        case 9: { size_t p0 = m.pos; std::string d = m.digits(); if (d.size() > 17) { m.pos = p0; break; } int cnt = -1; int64_t st = c.coin() ? 0 : (int64_t)c.range(0, 9), e = st; for (char x : d) e = e * 10 + (x - '0'); CHECK_EQ(r.read_digits<int64_t>(st, &cnt), e); CHECK_EQ(cnt, (int)d.size()); break; }
        case 10: { Model t = m; t.ws(); t.sign(); std::string d = t.digits(); if (d.size() > 9) break; m.ws(); int s = m.sign(); m.digits(); int e = d.empty() ? 0 : atoi(d.c_str()); if (c.coin()) CHECK_EQ(r.read_int(), s * e); else CHECK_EQ(r.read_integral_number<int64_t>(), (int64_t)s * e); break; }
        default: { // sscanf on what is available
            if (!r.reserve(1)) break; filled = true; r.reserve(c.below(cap + 1)); size_t a = r.available(); std::string view = m.s.substr(m.pos, a); const char* p = r.data(); int x = 0, y = 0, nx = 0, ny = 0; int rx = sscanf(p, "%5d%n", &x, &nx), ry = sscanf(view.c_str(), "%5d%n", &y, &ny); CHECK_EQ(rx, ry); if (ry == 1) { CHECK_EQ(x, y); CHECK_EQ(nx, ny); r.counter() = nx; r.advance(); m.pos += ny; } } }
        can_unread = unread_next; }
    std::string rest; int x; while ((x = r.read_char()) != -1) rest += (char)x; CHECK_EQ(rest, m.s.substr(m.pos)); CHECK_EQ(r.read_char(), -1); c.nontrivial(m.pos > 5 && n > 4); c.label("buffer smaller than the content", cap < m.s.size()); }
PROP(typed_values, 990000, 24750000) {
    int n = (int)c.range(1, 8); std::string s; struct V { int k; int64_t i; std::string w; long double f; }; std::vector<V> vs; auto gap = [&](int lo) { std::string g; int k = (int)c.range(lo, 3); for (int i = 0; i < k; i++) g += c.coin() ? ' ' : (char)c.below(0x21); return g; }; s = gap(0); for (int i = 0; i < n; i++) { V v{ (int)c.below(6), 0, "", 0 }; switch (v.k) { case 0: v.i = c.any<int32_t>(); break; case 1: case 2: v.i = c.any<int64_t>(); break; case 3: v.w = std::string(1 + c.below(8), 'x'); for (auto& x : v.w) x = (char)c.range(0x21, 255); break; case 4: { auto r = iom::gen_real(c, true); v.w = r.text; v.f = r.val; break; } default: { auto r = iom::gen_real(c, false); v.w = r.text; v.f = r.val; } } if (v.k < 3) { v.w = std::to_string(v.i); if (v.i >= 0 && c.chance(1, 4)) v.w = "+" + v.w; if (v.i >= 0 && v.w[0] != '+' && c.chance(1, 6)) v.w = "000" + v.w; } vs.push_back(v); s += v.w; s += gap(i + 1 < n ? 1 : 0); } c.show("text", s);
    size_t cap = c.chance(1, 5) ? 4096 : c.range(1, 12); SHOW(cap); In in(s); fast_read r(in.f, cap); bool st = c.coin(); for (auto& v : vs) { c.show("next", v.w); switch (v.k) { case 0: { int x; if (st) r >> x; else x = r.read_int(); CHECK_EQ((int64_t)x, v.i); break; } case 1: { long x; if (st) r >> x; else x = r.read_l(); CHECK_EQ((int64_t)x, v.i); break; } case 2: { long long x; if (st) r >> x; else x = r.read_ll(); CHECK_EQ((int64_t)x, v.i); break; } case 3: { std::string x; if (st) r >> x; else x = r.read_string(); CHECK_EQ(x, v.w); break; } case 4: { float x; if (st) r >> x; else x = r.read_float(); CHECK_MSG(iom::close_to(x, v.f, 4e-6L), "read " << x << " from " << v.w); break; } default: { double x; if (st) r >> x; else x = r.read_double(); CHECK_MSG(iom::close_to(x, v.f, 2e-14L), "read " << x << " from " << v.w); } } }
    r.skip_whitespaces(); char ch = 'q'; r >> ch; CHECK(ch == (char)-1); c.nontrivial(n > 2); c.label("small buffer", cap < 13); }
template<typename I> static std::string digits(I v, int len) { bool neg = v < 0; unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v; std::string r; while (u) r += (char)('0' + (int)(u % 10)), u /= 10; while ((int)r.size() < len) r += '0'; if (neg) r += '-'; std::reverse(r.begin(), r.end()); return r; }
template<typename I> static void integral(pbt::Ctx& c, fast_write& w, std::string& exp) { I v = c.any<I>(); int len = c.chance(1, 2) ? 1 : (int)c.range(0, 45); c.show("integral", std::make_pair(digits(v, 1), len)); if (len == 1 && c.coin()) w.template write_integral_number<I>(v); else w.template write_integral_number<I>(v, len); exp += digits(v, len); }
PROP(writing, 610000, 15250000) {
    size_t cap = c.chance(1, 5) ? 5000 : c.range(1, 14); SHOW(cap); Out o; std::string exp; size_t flushed = 0; { fast_write w(o.f, cap); CHECK_EQ(w.available(), cap); int n = (int)c.range(1, 20); for (int i = 0; i < n; i++) { int op = (int)c.below(13); c.show("op", op); switch (op) {
        case 0: { char x = (char)c.below(256); if (c.coin()) w.write_char(x); else w << x; exp += x; break; }
        case 2: { std::string t = iom::bytes(c, 20, 2); SHOW(t); if (c.coin()) w.write_string(t); else w << t; exp += t; break; }
        case 3: { std::string t = iom::bytes(c, 20, 1); SHOW(t); w.write_string(t.c_str()).write_string(t); exp += t + t; break; }
        case 4: { int v = c.any<int>(); SHOW(v); if (c.coin()) w.write_int(v); else w << v; exp += std::to_string(v); break; }
        case 5: { long long v = c.any<int64_t>(); SHOW(v); if (c.coin()) w.write_ll(v); else if (c.coin()) w << (long)v; else w << v; exp += std::to_string(v); break; }
        case 6: switch (c.below(6)) { case 0: integral<int8_t>(c, w, exp); break; case 1: integral<uint16_t>(c, w, exp); break; case 2: integral<uint32_t>(c, w, exp); break; case 3: integral<int64_t>(c, w, exp); break; case 4: integral<uint64_t>(c, w, exp); break; default: integral<int32_t>(c, w, exp); } break;
        case 7: { CHECK_EQ(w.flush(), cap); CHECK_EQ(o.got(), exp); CHECK_EQ(w.available(), cap); break; }
        case 8: { size_t k = c.below(20), b = w.available(); SHOW(k); size_t a = w.reserve(k); CHECK_EQ(a, b >= k ? b : cap); CHECK_EQ(w.available(), a); break; }
        case 9: { size_t k = c.range(1, 12); SHOW(k); char* p = w.data(k); CHECK_EQ(p != nullptr, k <= cap); if (p) { CHECK(w.available() >= k); std::string t = std::string(c.below(k), (char)('a' + i)); snprintf(p, w.available() + 1, "%s", t.c_str()); w.advance(); exp += t; } break; }
        case 10: { size_t b = w.available(); char* p = w.data(); CHECK(p); CHECK_EQ(w.available(), b); if (b > 1) { int v = (int)c.range(0, 9); snprintf(p, b, "%d", v); w.advance(); exp += std::to_string(v); CHECK_EQ(w.available(), b - 1); } break; }
        case 11: { w << 5 << std::string("x") << -6L << 7LL << ' '; w.write_string("ab").write_int(7).write_ll(-1); exp += "5x-67 ab7-1"; break; }
        default: { double f = (double)c.range(-1000, 1000) / 4; int p = (int)c.range(2, 6); char b[64]; snprintf(b, 64, "%.*f", p, f); if (p == 6 && c.coin()) { if (c.coin()) w << f; else w << (float)f; } else if (c.coin()) w.write_double(f, p); else w.write_float((float)f, p); exp += b; } }
        CHECK_MSG(w.available() <= cap, "more space than the capacity"); size_t pend = cap - w.available(); CHECK_MSG(pend <= exp.size() && exp.size() - pend >= flushed, "pending " << pend); flushed = exp.size() - pend; CHECK_EQ(o.got(), exp.substr(0, flushed)); } }
    CHECK_EQ(o.got(), exp); c.nontrivial(exp.size() > 15); c.label("output larger than the buffer", exp.size() > cap); }
PROP(numbers, 940000, 23500000) {
    Out o; double f = iom::gen_double(c); float g = (float)c.range(-100000, 100000) / (float)std::pow(10.0, (double)c.range(0, 6)); bool sci = c.chance(1, 3), flt = c.chance(1, 5); if (!sci && std::fabs(f) > 1e40) f = std::fmod(f, 1e6); int prec = (int)c.range(0, 13); SHOW(f); SHOW(g); SHOW(prec); SHOW(sci); SHOW(flt); { fast_write w(o.f, 16); if (flt) w.write_float(g, prec, sci); else w.write_double(f, prec, sci); } if (flt) iom::check_real(c, o.got(), g, prec, sci); else iom::check_real(c, o.got(), f, prec, sci); c.nontrivial(prec > 0 && f != 0); c.label("scientific", sci); }
PROP(round_trip, 720000, 18000000) {
    Out o; struct V { int k; int64_t i; std::string w; double f; int p; }; int n = (int)c.range(1, 8); std::vector<V> vs; { fast_write w(o.f, c.range(1, 20)); for (int i = 0; i < n; i++) { V v{ (int)c.below(4), 0, "", 0, 0 }; switch (v.k) { case 0: v.i = c.any<int>(); w.write_int((int)v.i); break; case 1: v.i = c.any<int64_t>(); w.write_ll(v.i); break; case 2: v.w = std::string(1 + c.below(6), 'a'); for (auto& x : v.w) x = (char)c.range(0x21, 255); w.write_string(v.w); break; default: v.f = iom::gen_double(c); v.p = (int)c.range(1, 12); w.write_double(v.f, v.p, true); } w.write_char(c.coin() ? ' ' : '\n'); vs.push_back(v); } }
    c.show("text", o.got()); In in(o.got()); fast_read r(in.f, c.range(1, 20)); for (auto& v : vs) switch (v.k) { case 0: CHECK_EQ((int64_t)r.read_int(), v.i); break; case 1: CHECK_EQ((int64_t)r.read_ll(), v.i); break; case 2: CHECK_EQ(r.read_string(), v.w); break; default: { double x = r.read_double(); CHECK_MSG(std::fabs(x - v.f) <= std::fabs(v.f) * (std::pow(10.0, -v.p) * 0.5001 + 3e-14), "read back " << x << " for " << v.f); } } c.nontrivial(n > 2); }

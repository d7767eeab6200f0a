// C60: readers hand out exactly the bytes of the underlying source, whatever the buffering.
#include "io_model.h"
#include "altruct/io/reader.h"
using namespace altruct::io; using iom::Model;
// a source that delivers at most `k` bytes per call
struct trickle : reader { const std::string& s; size_t p = 0, k; bool f = false; trickle(const std::string& s, size_t k) : s(s), k(k) {} int read_char() override { if (p >= s.size()) { f = true; return -1; } return (unsigned char)s[p++]; } size_t read(char* b, size_t n) override { size_t m = std::min(std::min(n, k), s.size() - p); memcpy(b, s.data() + p, m); p += m; if (m < n) f = true; return m; } operator bool() const override { return !f; } };
struct Src { FILE* f = nullptr; std::unique_ptr<char[]> copy; std::unique_ptr<std::istringstream> is; std::unique_ptr<reader> r; ~Src() { r.reset(); if (f) fclose(f); }
    Src(pbt::Ctx& c, const std::string& s, bool allow_trickle = true) { int k = (int)c.below(allow_trickle ? 5 : 4); if (s.empty() && k == 1) k = 0; if (k == 3 && s.find('\0') != std::string::npos) k = 0; c.show("source", k); copy.reset(new char[s.size() + (k == 3)]); if (s.size()) memcpy(copy.get(), s.data(), s.size()); switch (k) { case 0: r.reset(new string_reader(copy.get(), s.size())); break; case 1: f = fmemopen(copy.get(), s.size(), "r"); r.reset(new file_reader(f)); break; case 2: is.reset(new std::istringstream(s)); r.reset(new stream_reader(*is)); break; case 3: copy[s.size()] = 0; r.reset(new string_reader(copy.get())); break; default: r.reset(new trickle(s, c.range(1, 4))); } } };
PROP(plain_readers, 2600000, 65000000) {
    Model m; m.s = iom::bytes(c, 40, (int)c.below(3)); c.show("content", m.s); Src src(c, m.s, false); reader& r = *src.r; int n = (int)c.range(1, 12); CHECK_EQ(bool(r), true); for (int i = 0; i < n; i++) { if (c.coin()) { c.show("op", "read_char"); int e = m.get(); CHECK_EQ(r.read_char(), e); } else { size_t k = c.below(20); c.show("read", k); std::unique_ptr<char[]> b(new char[k]); size_t g = r.read(b.get(), k), e = std::min(k, m.rem()); CHECK_EQ(g, e); CHECK_MSG(memcmp(b.get(), m.s.data() + m.pos, e) == 0, "wrong bytes"); m.pos += e; if (e < k) m.eof = true; } CHECK_EQ(bool(r), !m.eof); } c.nontrivial(m.pos > 3); c.label("reached the end", m.eof); c.label("high bytes", std::any_of(m.s.begin(), m.s.end(), [](char x) { return x < 0; })); }
// all operations of buffered and simple readers
PROP(operations, 1800000, 45000000) {
    int kind = (int)c.below(3); Model m; m.s = iom::bytes(c, 60, kind); c.show("content", m.s); size_t cap = c.chance(1, 5) ? 1000 : c.range(1, 12); SHOW(cap); Src src(c, m.s); simple_reader r(*src.r, cap); bool can_unread = false, filled = false; bool fail = false; int n = (int)c.range(1, 25); CHECK_EQ(bool(r), true);
    for (int i = 0; i < n; i++) { int op = (int)c.below(14); c.show("op", op); bool unread_next = false; m.eof = false; switch (op) {
        case 0: case 1: { int e = m.get(); CHECK_EQ(r.read_char(), e); unread_next = e != -1; break; }
        case 2: if (can_unread) { r.unread_char(); m.pos--; } break;
        case 3: { size_t k = c.below(2 * cap < 30 ? 2 * cap + 2 : 30); c.show("k", k); std::unique_ptr<char[]> b(new char[k]); size_t g = r.read(b.get(), k), e = std::min(k, m.rem()); if (k <= cap) CHECK_EQ(g, e); else CHECK_MSG(g <= e && g >= std::min(cap, e), "read " << g); CHECK_MSG(memcmp(b.get(), m.s.data() + m.pos, g) == 0, "wrong bytes read"); m.pos += g; if (g < k) m.eof = true; break; }
        case 4: { size_t k = c.below(15); c.show("k", k); size_t before = c.coin() ? r.reserve(k) : 0; size_t g = r.skip(k); CHECK(g <= k && g <= m.rem()); if (before >= k) CHECK_EQ(g, k); m.pos += g; break; }
        case 5: { size_t k = c.below(15); size_t a = r.reserve(k); CHECK_MSG(a <= m.rem() && a <= cap && a >= std::min(k, std::min(cap, m.rem())), "reserve(" << k << ") = " << a); if (k) filled = true; break; }
        case 6: { size_t k = c.below(15); c.show("k", k); const char* p = r.data(k); if (k <= std::min(cap, m.rem())) CHECK_MSG(p, "data(" << k << ") is null"); if (!p) { m.eof = true; CHECK(k > std::min(cap, m.rem())); } else { if (k) filled = true; CHECK_MSG(memcmp(p, m.s.data() + m.pos, k) == 0, "data differs"); size_t a = r.reserve(0); CHECK(a >= k && a <= m.rem()); CHECK_MSG(memcmp(p, m.s.data() + m.pos, a) == 0, "available data differs"); if (filled || k) CHECK_MSG(p[a] == 0, "the data is not terminated"); r.counter() = (int)c.below(a + 1); c.show("cnt", r.counter()); m.pos += r.counter(); r.advance(); CHECK_EQ(r.counter(), 0); } break; }
        case 7: { size_t a = r.refill(); CHECK_EQ(a, std::min(cap, m.rem())); filled = true; break; }
        case 8: { char d = c.coin() ? '\n' : m.s.empty() ? 'x' : m.s[c.below(m.s.size())]; bool dflt = d == '\n' && c.coin(); c.show("delimiter", (int)d); std::string e = m.line(d); if (c.coin()) { simple_reader_stream st(r); CHECK_EQ(dflt ? st.read_line() : st.read_line(d), e); } else CHECK_EQ(dflt ? r.read_line() : r.read_line(d), e); break; }
        case 9: { std::string e = m.word(); CHECK_EQ(r.read_string(), e); break; }
        case 10: m.ws(); r.skip_whitespaces(); break;
        case 11: { int e = m.sign(); CHECK_EQ(r.read_sign(), e); break; }
        case 12: { size_t p0 = m.pos; std::string d = m.digits(); if (d.size() > 17) { m.pos = p0; break; } int cnt = -1; int64_t st = c.coin() ? 0 : (int64_t)c.range(0, 9), e = st; for (char x : d) e = e * 10 + (x - '0'); if (c.coin()) CHECK_EQ(r.read_digits<int64_t>(st, &cnt), e); else { CHECK_EQ(r.read_digits<int64_t>(st), e); cnt = (int)d.size(); } CHECK_EQ(cnt, (int)d.size()); break; }
        default: { Model t = m; t.ws(); t.sign(); std::string d = t.digits(); if (d.size() > 9) break; m.ws(); int s = m.sign(); m.digits(); int e = d.empty() ? 0 : atoi(d.c_str()); if (c.coin()) CHECK_EQ(r.read_int(), s * e); else CHECK_EQ(r.read_integral_number<int64_t>(), (int64_t)s * e); } }
        can_unread = unread_next; fail |= m.eof; if (m.eof) CHECK_MSG(!bool(r), "no failure reported at the end"); else if (!fail) CHECK_MSG(bool(r), "failure reported before the end"); }
    std::string rest; int x; while ((x = r.read_char()) != -1) rest += (char)x; CHECK_EQ(rest, m.s.substr(m.pos)); CHECK(!bool(r)); c.nontrivial(m.pos > 5 && n > 4); c.label("buffer smaller than the content", cap < m.s.size()); c.label("high bytes", std::any_of(m.s.begin(), m.s.end(), [](char x) { return x < 0; })); }
// typed values separated by white space
PROP(typed_values, 1500000, 37500000) {
    int n = (int)c.range(1, 8); std::string s; struct V { int k; int64_t i; std::string w; long double f; }; std::vector<V> vs; auto gap = [&](int lo) { std::string g; int k = (int)c.range(lo, 3); for (int i = 0; i < k; i++) g += c.coin() ? ' ' : (char)c.below(0x21); return g; }; s = gap(0); for (int i = 0; i < n; i++) { V v{ (int)c.below(6), 0, "", 0 }; switch (v.k) { case 0: v.i = c.any<int32_t>(); break; case 1: case 2: v.i = c.any<int64_t>(); break; case 3: v.w = std::string(1 + c.below(8), 'x'); for (auto& x : v.w) x = (char)c.range(0x21, 255); break; case 4: { auto r = iom::gen_real(c, true); v.w = r.text; v.f = r.val; break; } default: { auto r = iom::gen_real(c, false); v.w = r.text; v.f = r.val; } } if (v.k < 3) { v.w = std::to_string(v.i); if (v.i >= 0 && c.chance(1, 4)) v.w = "+" + v.w; if (v.i >= 0 && v.w[0] != '+' && c.chance(1, 6)) v.w = "000" + v.w; } vs.push_back(v); s += v.w; s += gap(i + 1 < n ? 1 : 0); } c.show("text", s);
    size_t cap = c.chance(1, 5) ? 4096 : c.range(1, 12); SHOW(cap); Src src(c, s); simple_reader r(*src.r, cap); simple_reader_stream st(r); bool stream = c.coin(); for (auto& v : vs) { c.show("next", v.w); CHECK(bool(st)); switch (v.k) { case 0: { int x; if (stream) st >> x; else x = r.read_int(); CHECK_EQ((int64_t)x, v.i); break; } case 1: { long x; if (stream) st >> x; else x = r.read_l(); CHECK_EQ((int64_t)x, v.i); break; } case 2: { long long x; if (stream) st >> x; else x = r.read_ll(); CHECK_EQ((int64_t)x, v.i); break; } case 3: { std::string x; if (stream) st >> x; else x = r.read_string(); CHECK_EQ(x, v.w); break; } case 4: { float x; if (stream) st >> x; else x = r.read_float(); CHECK_MSG(iom::close_to(x, v.f, 4e-6L), "read " << x << " from " << v.w); break; } default: { double x; if (stream) st >> x; else x = r.read_double(); CHECK_MSG(iom::close_to(x, v.f, 2e-14L), "read " << x << " from " << v.w); } } }
    r.skip_whitespaces(); char ch = 'q'; st >> ch; CHECK(ch == (char)-1 && !bool(st) && !bool(r)); c.nontrivial(n > 2); c.label("small buffer", cap < 13); }

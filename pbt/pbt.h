// Property-based testing engine used by every harness in /verif.
//
// A test case is a pure function of a finite sequence of integer choices
// ("choice sequence", as in Hypothesis). Choices come either from a PRNG that is
// seeded from (VERIF_SEED, sub-property name, case index), or from a replay file,
// or from the bytes of a libFuzzer input. Shrinking works on the choice sequence.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

typedef __int128 i128;
typedef unsigned __int128 u128;

inline std::string to_s(u128 v) {
    if (v == 0) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; }
    return s;
}
inline std::string to_s(i128 v) { return v < 0 ? "-" + to_s(u128(-v)) : to_s(u128(v)); }

struct Fail { std::string msg; };
struct Discard {};

// printing of values in case descriptions
template<typename T> struct shower {
    template<typename U> static auto go(std::ostream& os, const U& v, int) -> decltype(os << v, void()) { os << v; }
    template<typename U> static void go(std::ostream& os, const U&, long) { os << "?"; }
    static void to(std::ostream& os, const T& v) { go(os, v, 0); }
};
template<typename T> void show_to(std::ostream& os, const T& v) { shower<T>::to(os, v); }
template<> struct shower<signed char> { static void to(std::ostream& os, signed char v) { os << int(v); } };
template<> struct shower<unsigned char> { static void to(std::ostream& os, unsigned char v) { os << int(v); } };
template<> struct shower<i128> { static void to(std::ostream& os, i128 v) { os << to_s(v); } };
template<> struct shower<u128> { static void to(std::ostream& os, u128 v) { os << to_s(v); } };
template<> struct shower<std::string> { static void to(std::ostream& os, const std::string& v) {
    os << '"';
    for (unsigned char ch : v) {
        if (ch == '"' || ch == '\\') os << '\\' << ch;
        else if (ch >= 32 && ch < 127) os << ch;
        else { static const char* hx = "0123456789abcdef"; os << "\\x" << hx[ch >> 4] << hx[ch & 15]; }
    }
    os << '"';
} };
template<typename A, typename B> struct shower<std::pair<A, B>> { static void to(std::ostream& os, const std::pair<A, B>& v) {
    os << '('; show_to(os, v.first); os << ", "; show_to(os, v.second); os << ')';
} };
template<typename C> void show_seq(std::ostream& os, const C& v) {
    os << '['; bool first = true; size_t n = 0;
    for (const auto& e : v) {
        if (!first) os << ", ";
        first = false;
        if (++n > 80) { os << "..."; break; }
        typedef typename std::decay<decltype(e)>::type E;
        shower<E>::to(os, e);
    }
    os << ']';
}
template<typename T, typename A> struct shower<std::vector<T, A>> { static void to(std::ostream& os, const std::vector<T, A>& v) { show_seq(os, v); } };
template<typename T, typename A, typename B> struct shower<std::set<T, A, B>> { static void to(std::ostream& os, const std::set<T, A, B>& v) { show_seq(os, v); } };
template<typename T, typename A, typename B> struct shower<std::multiset<T, A, B>> { static void to(std::ostream& os, const std::multiset<T, A, B>& v) { show_seq(os, v); } };
template<typename K, typename V, typename A, typename B> struct shower<std::map<K, V, A, B>> { static void to(std::ostream& os, const std::map<K, V, A, B>& v) { show_seq(os, v); } };
template<typename T> std::string show(const T& v) { std::ostringstream os; os.precision(17); shower<T>::to(os, v); return os.str(); }

struct Stats;

// The context of one case: source of choices, classification, description.
class Ctx {
public:
    // --- raw choices -------------------------------------------------------
    // uniform in [0, n); n == 0 means the full 64-bit range
    uint64_t below(uint64_t n);
    // --- derived generators ------------------------------------------------
    bool coin() { return below(2) != 0; }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // 0 choice = false
    // a size in [lo, usual], one time in `den` in [lo, big]
    int64_t size_mostly(int64_t lo, int64_t usual, int64_t big, uint64_t den = 40) { return range(lo, chance(1, den) ? big : usual); }
    // uniform in [lo, hi]; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + below(uint64_t(hi) - uint64_t(lo) + 1)); }
    uint64_t urange(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    // biased integer in [lo, hi]: small, near the bounds, of uniform bit length, near powers of two, uniform
    int64_t integer(int64_t lo, int64_t hi);
    uint64_t uinteger(uint64_t lo, uint64_t hi);
    template<typename I> I any() { // any value of an integral type, biased
        return std::is_signed<I>::value
            ? I(integer(int64_t(std::numeric_limits<I>::min()), int64_t(std::numeric_limits<I>::max())))
            : I(uinteger(0, uint64_t(std::numeric_limits<I>::max())));
    }
    // length in [lo, hi], skewed to short ones
    int len(int lo, int hi);
    template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    std::vector<int> permutation(int n) {
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + (int)below(n - i)]);
        return p;
    }
    // weighted choice of an index
    int weighted(std::initializer_list<int> w) {
        int t = 0; for (int x : w) t += x;
        int r = (int)below(t), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    std::string str(int lo, int hi, const std::string& alphabet) {
        int n = len(lo, hi); std::string s(n, 0);
        for (auto& ch : s) ch = alphabet[below(alphabet.size())];
        return s;
    }
    double real(double lo, double hi) { return lo + (hi - lo) * (double(below(1 << 20)) / double(1 << 20)); }

    // --- classification ----------------------------------------------------
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    void label(const char* l, bool b = true) { if (b) labels.push_back(l); }
    void assume(bool b) { if (!b) throw Discard(); }
    bool describing() const { return want_desc; }
    std::ostringstream& desc() { return desc_; }
    template<typename T> void show(const char* name, const T& v) {
        if (!want_desc) return;
        std::string s = pbt::show(v);
        if (s.size() > 1500) s = s.substr(0, 1500) + "...";
        desc_ << name << "=" << s << " ";
    }
    void note(const std::string& s) { if (want_desc) desc_ << s << " "; }
    [[noreturn]] void fail(const std::string& msg) { throw Fail{ msg }; }

    bool thorough = false;
    bool want_desc = false;
    bool is_nontrivial = false;
    std::vector<const char*> labels;
    std::ostringstream desc_;
    // source state
    uint64_t s0 = 0, s1 = 0;
    const uint64_t* replay = nullptr; size_t replay_n = 0, pos = 0;
    const uint8_t* bytes = nullptr; size_t bytes_n = 0;
    uint64_t hash = 1469598103934665603ull;
    uint64_t* rec = nullptr; size_t rec_cap = 0; // recording buffer (shared memory)
    size_t n_choices = 0;
    uint64_t* n_out = nullptr; // number of choices so far, in shared memory
};

struct Prop {
    const char* name;
    int64_t quick, thorough;
    void (*fn)(Ctx&);
    Prop* next;
};
struct Registrar { Registrar(Prop* p); };
struct Probe { const char* name; void (*fn)(Ctx&); Probe* next; };
struct ProbeRegistrar { ProbeRegistrar(Probe* p); };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, quick case count, thorough case count) { body using `c` }
#define PROP(nm, q, t) \
    static void PBT_CAT(pbt_fn_, nm)(pbt::Ctx& c); \
    static pbt::Prop PBT_CAT(pbt_prop_, nm) = { #nm, q, t, PBT_CAT(pbt_fn_, nm), nullptr }; \
    static pbt::Registrar PBT_CAT(pbt_reg_, nm)(&PBT_CAT(pbt_prop_, nm)); \
    static void PBT_CAT(pbt_fn_, nm)(pbt::Ctx& c)

// PROBE(name) { fixed input of a known finding; fails while the defect is there }
#define PROBE(nm) \
    static void PBT_CAT(pbt_pfn_, nm)(pbt::Ctx& c); \
    static pbt::Probe PBT_CAT(pbt_probe_, nm) = { #nm, PBT_CAT(pbt_pfn_, nm), nullptr }; \
    static pbt::ProbeRegistrar PBT_CAT(pbt_preg_, nm)(&PBT_CAT(pbt_probe_, nm)); \
    static void PBT_CAT(pbt_pfn_, nm)(pbt::Ctx& c)

#define SHOW(x) c.show(#x, x)

#define CHECK(...) do { if (!(__VA_ARGS__)) c.fail(std::string("CHECK(" #__VA_ARGS__ ") failed at ") + pbt::base_name(__FILE__) + ":" + std::to_string(__LINE__)); } while (0)
#define CHECK_MSG(cond, msg) do { if (!(cond)) { std::ostringstream pbt_os; pbt_os << msg; c.fail(std::string("CHECK(" #cond ") failed at ") + pbt::base_name(__FILE__) + ":" + std::to_string(__LINE__) + ": " + pbt_os.str()); } } while (0)
#define CHECK_EQ(...) pbt::check_eq(c, __FILE__, __LINE__, #__VA_ARGS__, __VA_ARGS__)

inline std::string base_name(const char* f) { const char* p = strrchr(f, '/'); return p ? p + 1 : f; }

template<typename A, typename B>
void check_eq(Ctx& c, const char* file, int line, const char* text, const A& a, const B& b) {
    if (!(a == b)) c.fail(std::string("CHECK_EQ(") + text + ") failed at " + base_name(file) + ":" + std::to_string(line) + ": got " + pbt::show(a) + ", expected " + pbt::show(b));
}

} // pbt
using pbt::i128;
using pbt::u128;
using pbt::Ctx;

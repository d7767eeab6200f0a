// Driver of the property-based testing engine. See pbt.h and run.py.
//   run OUT TIER SEED WORKER NWORKERS [SCALE%]   run this worker's share of all cases
//   replay FILE                           run one saved case; exit 0 held, 3 failed, other = crash
//   shrink IN OUT SECONDS                 shrink a saved failing case (forks per candidate)
//   regen TIER SEED PROP INDEX OUT        save the choices of a generated case
//   distinct FILES...                     count distinct hashes
#include "pbt.h"
#include <algorithm>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits>
#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace pbt {

static Prop* g_props = nullptr;
Registrar::Registrar(Prop* p) { p->next = g_props; g_props = p; }
static Probe* g_probes = nullptr;
ProbeRegistrar::ProbeRegistrar(Probe* p) { p->next = g_probes; g_probes = p; }

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t Ctx::below(uint64_t n) {
    uint64_t v;
    if (replay) {
        v = pos < replay_n ? replay[pos] : 0; pos++;
        if (n) v = v < n ? v : v % n;
    } else if (bytes) {
        // little-endian, as many bytes as the bound needs; exhausted = 0
        int nb = 8;
        if (n) { nb = 1; while (nb < 8 && ((n - 1) >> (8 * nb))) nb++; }
        v = 0;
        for (int i = 0; i < nb; i++) if (pos < bytes_n) v |= uint64_t(bytes[pos++]) << (8 * i);
        if (n) v %= n;
    } else {
        uint64_t a = s0, b = s1; // xorshift128+
        s0 = b; a ^= a << 23; s1 = a ^ b ^ (a >> 17) ^ (b >> 26);
        uint64_t x = s1 + b;
        v = n ? uint64_t((u128(x) * n) >> 64) : x;
    }
    hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
    if (n_choices < rec_cap) rec[n_choices] = v;
    n_choices++;
    if (n_out) *n_out = n_choices;
    return v;
}

uint64_t Ctx::uinteger(uint64_t lo, uint64_t hi) {
    if (lo > hi) { fprintf(stderr, "generator error: empty range\n"); _exit(2); }
    uint64_t w = hi - lo;
    if (w == 0) return lo;
    if (w < 16) return lo + below(w + 1);
    switch (below(8)) {
    case 0: case 1: return lo + below(std::min<uint64_t>(w, 20) + 1);
    case 2: return hi - below(std::min<uint64_t>(w, 8) + 1);
    case 3: case 4: { // uniform bit length of the offset
        int nb = 64 - __builtin_clzll(w);
        int k = (int)below(nb + 1);
        uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
        uint64_t v = m ? (m == ~0ull ? below(0) : below(m + 1)) : 0;
        return lo + (v > w ? w : v);
    }
    case 5: { // near a power of two (in value)
        int nb = 64 - __builtin_clzll(hi);
        uint64_t v = (1ull << below(nb)) + below(7) - 3;
        return v < lo ? lo : v > hi ? hi : v;
    }
    default: return lo + (w == ~0ull ? below(0) : below(w + 1));
    }
}
int64_t Ctx::integer(int64_t lo, int64_t hi) {
    if (lo >= 0) return (int64_t)uinteger(lo, hi);
    if (hi <= 0) return (int64_t)(0 - uinteger(0 - (uint64_t)hi, 0 - (uint64_t)lo));
    return coin() ? (int64_t)(-uinteger(0, -(uint64_t)lo)) : (int64_t)uinteger(0, hi);
}
int Ctx::len(int lo, int hi) {
    int w = hi - lo;
    if (w <= 0) return lo;
    switch (below(4)) {
    case 0: return lo + (int)below(std::min(w, 4) + 1);
    case 1: case 2: return lo + (int)below(w / 3 + 1);
    default: return lo + (int)below(w + 1);
    }
}

static const size_t REC_CAP = 1 << 20;
struct Shared { // in shared memory: what a crashed worker was doing
    char prop[64]; uint64_t index; uint64_t phase; uint64_t n_choices;
    char msg[4000];
    uint64_t rec[REC_CAP];
};
static Shared* g_sh;
static int g_cpu_limit = 40;

static void on_cpu(int) { // this case has burned its CPU allowance: does not terminate
    if (g_sh) { strcpy(g_sh->msg, "case exceeded its CPU allowance (does not terminate?)"); }
    _exit(97);
}
static void arm() {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_cpu_limit;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
enum Outcome { HELD, FAILED, DISCARDED };

static Outcome run_case(Prop* p, Ctx& c, std::string& msg) {
    arm();
    try { p->fn(c); return HELD; }
    catch (const Fail& f) { msg = f.msg; return FAILED; }
    catch (const Discard&) { return DISCARDED; }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
    catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
}

static void seed_case(Ctx& c, uint64_t seed, const char* prop, uint64_t idx) {
    uint64_t h = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    for (const char* s = prop; *s; s++) { h = (h ^ (unsigned char)*s) * 1099511628211ull; }
    h += idx * 0xd1342543de82ef95ull;
    c.s0 = splitmix(h); c.s1 = splitmix(h);
    if (!c.s0 && !c.s1) c.s1 = 1;
}

static std::vector<Prop*> props() {
    std::vector<Prop*> v;
    for (Prop* p = g_props; p; p = p->next) v.push_back(p);
    std::sort(v.begin(), v.end(), [](Prop* a, Prop* b) { return strcmp(a->name, b->name) < 0; });
    return v;
}
static Prop* find(const std::string& n) {
    for (Prop* p : props()) if (n == p->name) return p;
    fprintf(stderr, "no such sub-property: %s\n", n.c_str()); exit(2);
}
static std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}
static void save_case(const std::string& file, const std::string& prop, bool thorough, const uint64_t* ch, size_t n, const std::string& msg) {
    std::ofstream o(file);
    o << "prop " << prop << "\ntier " << (thorough ? "thorough" : "quick") << "\nchoices " << n << "\n";
    for (size_t i = 0; i < n; i++) o << ch[i] << (i % 16 == 15 ? "\n" : " ");
    o << "\n";
    std::istringstream is(msg); std::string line;
    while (std::getline(is, line)) o << "# " << line << "\n";
}
static std::string g_rprop; static bool g_rthorough; static std::vector<uint64_t> g_rch;
static void load_case(const std::string& file) {
    std::ifstream i(file); std::string k; size_t n = 0;
    std::string tier;
    i >> k >> g_rprop >> k >> tier >> k >> n; g_rthorough = tier == "thorough";
    g_rch.resize(n); for (auto& x : g_rch) i >> x;
    if (!i) { fprintf(stderr, "bad case file %s\n", file.c_str()); exit(2); }
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int do_run(int argc, char** argv) {
    std::string out = argv[2]; bool thorough = !strcmp(argv[3], "thorough");
    uint64_t seed = strtoull(argv[4], 0, 10); int worker = atoi(argv[5]), nw = atoi(argv[6]);
    double scale = argc > 7 ? atof(argv[7]) / 100 : 1; const char* only = argc > 8 ? argv[8] : nullptr;
    int fd = open((out + ".shm").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("shm"); return 2; }
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    std::ofstream js(out + ".json"); js << "[\n"; bool firstp = true;
    std::ofstream hs(out + ".hash", std::ios::binary);
    Prop* cur;
    for (Prop* p : props()) {
        if (only && !strstr(p->name, only)) continue;
        cur = p;
        int64_t total = (int64_t)((thorough ? p->thorough : p->quick) * scale); if (total < 1) total = 1;
        uint64_t evals = 0, disc = 0, nontriv = 0; double t0 = now(), tmax = 0;
        std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
        std::vector<uint64_t> hashes; // at most 2^20 per sub-property and worker are counted as distinct
        strncpy(g_sh->prop, p->name, 63);
        for (int64_t i = worker; i < total; i += nw) {
            Ctx c; c.thorough = thorough; seed_case(c, seed, p->name, i);
            c.rec = g_sh->rec; c.rec_cap = REC_CAP; c.n_out = &g_sh->n_choices; g_sh->n_choices = 0; c.want_desc = worker == 0 && samples.size() < 2;
            g_sh->index = i; g_sh->phase = 1; g_sh->msg[0] = 0;
            std::string msg; double a = now();
            Outcome o = run_case(p, c, msg);
            double d = now() - a; if (d > tmax) tmax = d;
            g_sh->phase = 0;
            if (o == FAILED) {
                save_case(out + ".fail", p->name, thorough, g_sh->rec, std::min(c.n_choices, REC_CAP), msg);
                std::ofstream f(out + ".failinfo"); f << p->name << "\n" << i << "\n" << msg << "\n";
                return 3;
            }
            if (o == DISCARDED) { disc++; continue; }
            evals++;
            if (c.is_nontrivial) {
                nontriv++; if (hashes.size() < (1u << 20)) hashes.push_back(c.hash);
                if (c.want_desc && samples.size() < 2) { std::string s = c.desc_.str(); if (s.size() > 700) s = s.substr(0, 700) + "..."; if (!s.empty()) samples.push_back(s); }
            }
            for (const char* l : c.labels) labels[l]++;
        }
        // tag the hashes with the sub-property
        uint64_t tag = 0; for (const char* s = p->name; *s; s++) tag = tag * 131 + (unsigned char)*s;
        tag *= 0x9e3779b97f4a7c15ull;
        for (uint64_t h : hashes) { h ^= tag; hs.write((const char*)&h, 8); }
        js << (firstp ? "" : ",\n"); firstp = false;
        js << "{\"name\": " << jesc(p->name) << ", \"evaluations\": " << evals << ", \"discarded\": " << disc << ", \"nontrivial\": " << nontriv
           << ", \"seconds\": " << now() - t0 << ", \"max_case_seconds\": " << tmax << ", \"labels\": {";
        bool fl = true; for (auto& l : labels) { js << (fl ? "" : ", ") << jesc(l.first) << ": " << l.second; fl = false; }
        js << "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) js << (i ? ", " : "") << jesc(samples[i]);
        js << "]}"; js.flush();
    }
    js << "\n]\n";
    munmap(g_sh, sizeof(Shared)); g_sh = nullptr; unlink((out + ".shm").c_str());
    return 0;
}

static int do_crashinfo(char** argv) { // crashinfo OUT TIER : turn the shared memory of a dead worker into a case file
    std::string out = argv[2]; int fd = open((out + ".shm").c_str(), O_RDONLY);
    if (fd < 0) return 2;
    Shared* s = (Shared*)mmap(0, sizeof(Shared), PROT_READ, MAP_SHARED, fd, 0);
    if (s == MAP_FAILED || !s->prop[0]) return 2;
    size_t n = std::min<size_t>(s->n_choices, REC_CAP);
    save_case(out + ".fail", s->prop, !strcmp(argv[3], "thorough"), s->rec, n, s->msg);
    std::ofstream f(out + ".failinfo"); f << s->prop << "\n" << s->index << "\n" << (s->msg[0] ? s->msg : "crash") << "\n";
    return 0;
}

static int replay_here(bool print) {
    Prop* p = find(g_rprop);
    Ctx c; c.thorough = g_rthorough; c.replay = g_rch.empty() ? (const uint64_t*)"\0\0\0\0\0\0\0\0" : g_rch.data(); c.replay_n = g_rch.size(); c.want_desc = print;
    if (g_sh) { c.rec = g_sh->rec; c.rec_cap = REC_CAP; c.n_out = &g_sh->n_choices; g_sh->n_choices = 0; }
    std::string msg;
    if (print) { printf("sub-property: %s\n", p->name); fflush(stdout); }
    Outcome o = run_case(p, c, msg);
    if (g_sh) { strncpy(g_sh->msg, msg.c_str(), sizeof(g_sh->msg) - 1); }
    if (print) {
        printf("case: %s\n", c.desc_.str().c_str());
        printf("%s\n", o == FAILED ? ("FAILED: " + msg).c_str() : o == DISCARDED ? "discarded" : "held");
        fflush(stdout);
    }
    return o == FAILED ? 3 : 0;
}

// runs a candidate in a child; true if it still fails. On oracle failures also trims to the choices used.
static bool still_fails(std::vector<uint64_t>& ch) {
    g_sh->n_choices = ~0ull; g_sh->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
        g_rch = ch; _exit(replay_here(false));
    }
    int st = 0; waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && g_sh->n_choices != ~0ull) {
        size_t n = std::min<size_t>(g_sh->n_choices, REC_CAP);
        std::vector<uint64_t> used(g_sh->rec, g_sh->rec + n);
        ch = used;
    }
    return bad;
}

static int do_shrink(char** argv) {
    load_case(argv[2]); double end = now() + atof(argv[4]);
    g_cpu_limit = argv[5] ? atoi(argv[5]) : 10;
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<uint64_t> best = g_rch;
    if (!still_fails(best)) { printf("does not reproduce\n"); return 4; }
    auto simpler = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    };
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (now() > end) return false;
        if (!simpler(cand, best)) return false;
        std::vector<uint64_t> c2 = cand;
        if (!still_fails(c2)) return false;
        best = simpler(c2, cand) ? c2 : cand;
        return true;
    };
    bool progress = true;
    // truncate first (crashes carry unused tails)
    for (size_t n = best.size() / 2; n > 0; n /= 2)
        while (best.size() > n && attempt(std::vector<uint64_t>(best.begin(), best.end() - n))) {}
    while (progress && now() < end) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= best.size();) {
                std::vector<uint64_t> cd(best.begin(), best.begin() + i);
                cd.insert(cd.end(), best.begin() + i + k, best.end());
                if (attempt(cd)) progress = true; else i += k > 4 ? k / 2 : 1;
                if (now() > end) break;
            }
            if (now() > end) break;
        }
        // delete a short block while lowering an earlier count by one
        for (size_t i = 0; i < best.size() && now() < end; i++) if (best[i] > 0 && best[i] < 300) {
            for (size_t k = 1; k <= 4; k++) for (size_t j = i + 1; j + k <= best.size() && j < i + 40; j++) {
                if (i >= best.size() || !best[i]) break;
                std::vector<uint64_t> cd = best; cd[i]--;
                cd.erase(cd.begin() + j, cd.begin() + j + k);
                if (attempt(cd)) { progress = true; }
            }
        }
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            if (!best[i]) continue;
            std::vector<uint64_t> cd = best; cd[i] = 0;
            if (attempt(cd)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (lo + 1 < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                cd = best; if (i >= cd.size()) break; cd[i] = mid;
                if (attempt(cd)) { progress = true; hi = i < best.size() ? best[i] : 0; } else lo = mid;
            }
            if (i < best.size() && best[i]) { cd = best; cd[i]--; if (attempt(cd)) progress = true; }
        }
    }
    std::vector<uint64_t> fin = best; still_fails(fin);
    save_case(argv[3], g_rprop, g_rthorough, best.data(), best.size(), g_sh->msg);
    printf("shrunk to %zu choices\n", best.size());
    return 0;
}

static int do_distinct(int argc, char** argv) {
    std::vector<uint64_t> v;
    for (int i = 2; i < argc; i++) {
        std::ifstream f(argv[i], std::ios::binary); uint64_t h;
        while (f.read((char*)&h, 8)) v.push_back(h);
    }
    std::sort(v.begin(), v.end());
    printf("%zu\n", size_t(std::unique(v.begin(), v.end()) - v.begin()));
    return 0;
}

} // pbt

#ifdef PBT_FUZZ
// libFuzzer: the first byte picks the sub-property, the rest are the choices.
static std::vector<pbt::Prop*> g_fz;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* only = getenv("PBT_FUZZ_ONLY");
    for (auto p : pbt::props()) if (!only || strstr(p->name, only)) g_fz.push_back(p);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 2) return 0;
    pbt::Ctx c; c.bytes = data + 1; c.bytes_n = size - 1;
    static std::vector<uint64_t> rec(pbt::REC_CAP); c.rec = rec.data(); c.rec_cap = rec.size();
    std::string msg; pbt::Prop* p = g_fz[data[0] % g_fz.size()];
    const char* out = getenv("PBT_FUZZ_FAIL");
    pbt::Outcome o = pbt::HELD;
    try { p->fn(c); } catch (const pbt::Fail& f) { o = pbt::FAILED; msg = f.msg; } catch (const pbt::Discard&) {}
    catch (const std::exception& e) { o = pbt::FAILED; msg = e.what(); }
    if (o == pbt::FAILED) {
        if (out) pbt::save_case(out, p->name, false, rec.data(), c.n_choices, msg);
        fprintf(stderr, "PBT failure in %s: %s\n", p->name, msg.c_str());
        __builtin_trap();
    }
    return 0;
}
// turn a crashing libFuzzer input into a case file is done by: BIN_FUZZ with PBT_FUZZ_FAIL, or by run.py
#else
int main(int argc, char** argv) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = pbt::on_cpu; sigaction(SIGVTALRM, &sa, nullptr);
    if (const char* s = getenv("PBT_CPU")) pbt::g_cpu_limit = atoi(s);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "run" && argc >= 7) return pbt::do_run(argc, argv);
    if (cmd == "crashinfo") return pbt::do_crashinfo(argv);
    if (cmd == "replay") { pbt::load_case(argv[2]); return pbt::replay_here(true); }
    if (cmd == "shrink") return pbt::do_shrink(argv);
    if (cmd == "distinct") return pbt::do_distinct(argc, argv);
    if (cmd == "frombytes") { // frombytes INPUT OUT: a libFuzzer input as a case file (choices as bytes cannot be replayed directly)
        std::ifstream f(argv[2], std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (s.size() < 2) return 2;
        auto ps = pbt::props(); const char* only = getenv("PBT_FUZZ_ONLY");
        std::vector<pbt::Prop*> sel; for (auto p : ps) if (!only || strstr(p->name, only)) sel.push_back(p);
        pbt::Prop* p = sel[(unsigned char)s[0] % sel.size()];
        pbt::g_sh = (pbt::Shared*)mmap(0, sizeof(pbt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t pid = fork();
        if (pid == 0) {
            pbt::Ctx c; c.bytes = (const uint8_t*)s.data() + 1; c.bytes_n = s.size() - 1; c.rec = pbt::g_sh->rec; c.rec_cap = pbt::REC_CAP; c.n_out = &pbt::g_sh->n_choices;
            std::string msg; auto o = pbt::run_case(p, c, msg); _exit(o == pbt::FAILED ? 3 : 0);
        }
        int st; waitpid(pid, &st, 0);
        pbt::save_case(argv[3], p->name, false, pbt::g_sh->rec, std::min<size_t>(pbt::g_sh->n_choices, pbt::REC_CAP), "from a libFuzzer input");
        return 0;
    }
    if (cmd == "probe") {
        for (pbt::Probe* p = pbt::g_probes; p; p = p->next) if (!strcmp(p->name, argv[2])) {
            static pbt::Prop pr = { p->name, 1, 1, p->fn, nullptr };
            pbt::Ctx c; c.want_desc = true; static const uint64_t z = 0; c.replay = &z; std::string msg;
            auto o = pbt::run_case(&pr, c, msg);
            printf("%s%s\n", c.desc_.str().c_str(), o == pbt::FAILED ? msg.c_str() : "held");
            return o == pbt::FAILED ? 3 : 0;
        }
        return 2;
    }
    if (cmd == "list") { for (auto p : pbt::props()) printf("%s %lld %lld\n", p->name, (long long)p->quick, (long long)p->thorough); return 0; }
    fprintf(stderr, "usage: see main.cpp\n");
    return 2;
}
#endif

// C70: parallel execution of jobs under randomised schedules; C++ threads with generated delays in every callback.
#include "pbt.h"
#include <set>
#include "altruct/concurrency/concurrency.h"
using namespace altruct::concurrency;
// a generated plan decides how long every callback dawdles; dawdling widens the windows in which unsynchronised calls would overlap
static void dawdle(int k) { if (k == 1) std::this_thread::yield(); else if (k == 2) for (volatile int i = 0; i < 300; i++); else if (k == 3) for (int i = 0; i < 4; i++) std::this_thread::yield(); else if (k == 4) std::this_thread::sleep_for(std::chrono::microseconds(40)); }
struct Plan { std::vector<int> d; std::atomic<unsigned> next{ 0 }; int take() { return d[next++ % d.size()]; } };
// detects two threads inside one object
struct Region { std::atomic<int> in{ 0 }; std::atomic<bool> clash{ false }; }; struct Enter { Region& r; Enter(Region& r) : r(r) { if (r.in++) r.clash = true; } ~Enter() { r.in--; } };
struct Job { int id; int64_t x; };
struct Jobs { Plan& p; Region r; int n, i = 0; std::vector<int> asked; bool drained = false, overrun = false; Jobs(Plan& p, int n) : p(p), n(n) {} bool has_next_job() { Enter e(r); dawdle(p.take()); bool h = i < n; dawdle(p.take()); return h; } Job next_job() { Enter e(r); if (i >= n) overrun = true; int k = i; dawdle(p.take()); i = k + 1; return Job{ k, (int64_t)k * k + 7 }; } };
struct Log { std::vector<std::atomic<int>> runs; std::atomic<int> workers{ 0 }, shared{ 0 }; std::atomic<bool> wrong_thread{ false }; Log(int n) : runs(n + 1) {} };
struct Workers { Plan& p; Log& l; Region r; int made = 0; std::vector<std::shared_ptr<Region>> regs; struct W { Plan& p; Log& l; std::shared_ptr<Region> r; int id; int64_t done = 0; int64_t execute_job(const Job& j) { Enter e(*r); l.runs[j.id]++; dawdle(p.take()); done++; dawdle(p.take()); return j.x * 3 + j.id; } }; W create_worker() { Enter e(r); int k = made; dawdle(p.take()); made = k + 1; l.workers++; regs.push_back(std::make_shared<Region>()); return W{ p, l, regs.back(), k }; } };
struct Collect { Plan& p; Region r; int64_t sum = 0; std::vector<std::pair<int, int64_t>> got; template<typename J> void collect_result(const int64_t& v, const J& j) { Enter e(r); int64_t s = sum; dawdle(p.take()); got.push_back({ j.id, v }); sum = s + v; } };
PROP(every_job_once, 6000, 150000) {
    int n = (int)c.size_mostly(0, 40, 1500, 60), th = (int)c.size_mostly(0, 8, 40, 60); Plan p; p.d.resize(c.range(1, 64)); for (auto& x : p.d) x = (int)c.weighted({ 4, 2, 2, 1, 1 }); SHOW(n); SHOW(th); c.show("delays", p.d); Log l(n); Jobs jobs(p, n); Workers w{ p, l }; Collect col{ p }; parallel_execute(col, jobs, w, th);
    CHECK_MSG(!jobs.r.clash, "two threads inside the job provider"); CHECK_MSG(!col.r.clash, "two threads inside the result collector"); CHECK_MSG(!w.r.clash, "two threads inside the worker provider"); for (auto& x : w.regs) CHECK_MSG(!x->clash, "a worker is used by two threads"); CHECK_EQ(w.made, std::max(th, 1)); CHECK_EQ((int)l.workers, std::max(th, 1)); CHECK_EQ(jobs.i, n); CHECK_MSG(!jobs.overrun, "a job was requested after the last one"); CHECK_EQ((int)col.got.size(), n); int64_t sum = 0; std::set<int> ids; for (int i = 0; i < n; i++) { CHECK_EQ((int)l.runs[i], 1); sum += ((int64_t)i * i + 7) * 3 + i; } for (auto& g : col.got) { CHECK_MSG(ids.insert(g.first).second, "job " << g.first << " collected twice"); int64_t i = g.first; CHECK_EQ(g.second, (i * i + 7) * 3 + i); } CHECK_EQ(col.sum, sum); if (th <= 1) for (int i = 0; i < n; i++) CHECK_EQ(col.got[i].first, i); c.nontrivial(n > 3 && th > 1); c.label("more threads than jobs", th > n); }
// the jobs really run at the same time: each waits until another one has started
struct Gate { std::mutex m; std::condition_variable cv; int in = 0, need; bool ok = true; }; struct GateWorkers { Gate& g; struct W { Gate& g; int execute_job(const std::pair<int, int>& j) { std::unique_lock<std::mutex> l(g.m); g.in++; g.cv.notify_all(); if (!g.cv.wait_for(l, std::chrono::seconds(20), [&] { return g.in >= g.need; })) g.ok = false; return j.second - j.first; } }; W create_worker() { return W{ g }; } };
PROP(jobs_overlap, 9300, 232500) { int th = (int)c.range(2, 6); Gate g; g.need = th; SHOW(th); int n = th + (int)c.below(10); GateWorkers w{ g }; range_job_provider<int> jobs(0, n, 1); add_result_collector<int> col; parallel_execute(col, jobs, w, th); CHECK_MSG(g.ok, "jobs do not run in parallel"); CHECK_EQ(col.result, n); c.nontrivial(true); }
// ranges
template<typename I> static void ranges(pbt::Ctx& c) { I b = c.any<I>(), len = c.coin() ? (I)c.range(1, 9) : c.any<I>(); if (len <= 0) len = 1; __int128 room = (__int128)std::numeric_limits<I>::max() - b - len; c.assume(room >= 0); __int128 span = c.coin() ? (__int128)c.range(-3, 60) : (__int128)len * (int64_t)c.range(0, 40) + c.range(-2, 2); __int128 e = (__int128)b + span; if (e > (__int128)b + room) e = (__int128)b + room; c.assume(e >= std::numeric_limits<I>::min() && span < (__int128)len * 200); I en = (I)e; SHOW(b); SHOW(en); SHOW(len); range_job_provider<I> p(b, en, len); __int128 at = b; int k = 0; while (p.has_next_job()) { auto j = p.next_job(); CHECK_EQ(j.first == (I)at, true); __int128 w = (__int128)j.second - j.first; CHECK_MSG(w >= 1 && w <= len, "job of width " << (int64_t)w); CHECK(j.second <= en); at = j.second; if (at != en) CHECK(w == (__int128)len); CHECK(++k <= 1000); } CHECK(at == (b < en ? (__int128)en : (__int128)b)); CHECK(!p.has_next_job()); c.nontrivial(k > 1); }
PROP(range_jobs, 1500000, 37500000) { switch (c.below(4)) { case 0: ranges<int>(c); break; case 1: ranges<int64_t>(c); break; case 2: ranges<uint32_t>(c); break; default: ranges<uint64_t>(c); } }
struct SumWorkers { Plan& p; struct W { Plan& p; int64_t execute_job(const std::pair<int64_t, int64_t>& j) { int64_t s = 0; for (int64_t i = j.first; i < j.second; i++) s += i * i; dawdle(p.take()); return s; } }; W create_worker() { return W{ p }; } };
PROP(range_sums, 7800, 195000) { int64_t b = c.range(-50, 50), e = b + c.range(-3, 120), len = c.range(1, 20); int th = (int)c.range(0, 8); SHOW(b); SHOW(e); SHOW(len); SHOW(th); Plan p; p.d.resize(16); for (auto& x : p.d) x = (int)c.weighted({ 4, 2, 2, 1, 1 }); SumWorkers w{ p }; range_job_provider<int64_t> jobs(b, e, len); add_result_collector<int64_t> col; CHECK_EQ(col.result, (int64_t)0); parallel_execute(col, jobs, w, th); int64_t s = 0; for (int64_t i = b; i < e; i++) s += i * i; CHECK_EQ(col.result, s); c.nontrivial(e - b > len && th > 1); }
// LOCK runs its block once, holding the mutex
PROP(lock_block, 7900, 197500) { int th = (int)c.range(1, 6), n = (int)c.range(1, 20); Plan p; p.d.resize(16); for (auto& x : p.d) x = (int)c.weighted({ 4, 2, 2, 1, 1 }); SHOW(th); SHOW(n); std::mutex mu, mu2; int64_t cnt = 0; Region r; std::vector<std::thread> t; std::atomic<int> ran{ 0 }; bool nest = c.coin(); for (int i = 0; i < th; i++) t.emplace_back([&] { for (int k = 0; k < n; k++) { if (nest) { LOCK(mu) { Enter e(r); int64_t x = cnt; LOCK(mu2) { dawdle(p.take()); ran++; } cnt = x + 1; } } else { LOCK(mu) { Enter e(r); int64_t x = cnt; dawdle(p.take()); cnt = x + 1; ran++; } } } }); for (auto& x : t) x.join(); CHECK_MSG(!r.clash, "two threads inside a LOCK block"); CHECK_EQ(cnt, (int64_t)th * n); CHECK_EQ((int)ran, th * n); CHECK_MSG(mu.try_lock(), "the mutex stays locked"); mu.unlock(); c.nontrivial(th > 1 && n > 1); }

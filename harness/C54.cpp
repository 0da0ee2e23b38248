// C54: ThreadPool under generated task graphs, schedules, waiters, failures and shutdowns (built with ThreadSanitizer)
#include "common.h"
#include <thread>
#include <future>
#include <set>
#include <map>
#include <algorithm>
#include "tools/ThreadPool.h"
#include <dlfcn.h>
#include <pthread.h>
// schedule perturbation: seeded random pauses around every lock, unlock and (holding the mutex) before every condition wait
static std::atomic<unsigned> g_chaos{0}, g_cseed{1};
static void chaos(int where) { unsigned lv = g_chaos.load(std::memory_order_relaxed); if (!lv) return; static thread_local unsigned x = 0; if (!x) x = g_cseed.fetch_add(0x9E3779B9u, std::memory_order_relaxed) | 1; x ^= x << 13; x ^= x >> 17; x ^= x << 5; unsigned r = x % 100; if (r < 6 * lv) sched_yield(); else if (r < 6 * lv + lv * (where == 2 ? 8 : 1)) { timespec t{0, (long)(1000 * (5 + x / 128 % 60))}; nanosleep(&t, nullptr); } }
extern "C" { int __interceptor_pthread_mutex_lock(pthread_mutex_t*) __attribute__((weak)); int __interceptor_pthread_mutex_unlock(pthread_mutex_t*) __attribute__((weak)); int __interceptor_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) __attribute__((weak)); }
template <class F> static F real_(F i, const char* n) { return i ? i : (F)dlsym(RTLD_NEXT, n); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept { static auto f = real_(&__interceptor_pthread_mutex_lock, "pthread_mutex_lock"); chaos(0); return f(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { static auto f = real_(&__interceptor_pthread_mutex_unlock, "pthread_mutex_unlock"); int r = f(m); chaos(1); return r; }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static auto f = real_(&__interceptor_pthread_cond_wait, "pthread_cond_wait"); chaos(2); return f(c, m); }
struct Chaos { Chaos(Src& s) { int l = (int)s.i(0, 3); g_cseed = (unsigned)s.i(1, 1 << 30); g_chaos = l; } ~Chaos() { g_chaos = 0; } };
typedef std::atomic<int> AI; using Clock = std::chrono::steady_clock;
static const double LIMIT = 12; // seconds without progress that count as a hang
template <class P> static bool eventually(P p) { auto t0 = Clock::now(); for (int k = 0; !p(); k++) { if (std::chrono::duration<double>(Clock::now() - t0).count() > LIMIT) return false; if (k > 50) std::this_thread::sleep_for(std::chrono::microseconds(k > 500 ? 500 : 20)); else std::this_thread::yield(); } return true; }
// run f on its own thread; false when it does not come back (the thread is abandoned)
template <class F> static bool returns(F f) { auto d = std::make_shared<AI>(0); std::thread t([f, d] { f(); d->store(1); }); bool ok = eventually([&] { return d->load() == 1; }); if (ok) t.join(); else t.detach(); return ok; }
static void pause_(int w) { if (w <= 0) return; if (w < 6) for (int i = 0; i < w; i++) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds((w - 5) * 12)); }
struct Job { int pre, post, thr; std::vector<int> kids; };
struct State { std::vector<Job> jobs; std::vector<AI> ran, fin, pub; AI cb{0}, cb2{0}; ThreadPool* pool = nullptr; State(std::vector<Job> j) : jobs(std::move(j)), ran(jobs.size()), fin(jobs.size()), pub(jobs.size()) { for (size_t i = 0; i < jobs.size(); i++) ran[i] = fin[i] = pub[i] = 0; } };
typedef std::shared_ptr<State> SP;
struct Boom : std::runtime_error { int id; Boom(int i) : std::runtime_error("boom"), id(i) {} };
static void submit(SP S, int id);
static void body(SP S, int id) { S->ran[id]++; const Job& j = S->jobs[id]; pause_(j.pre); for (int k : j.kids) submit(S, k); pause_(j.post); S->fin[id]++; if (j.thr == 1) throw Boom(id); if (j.thr == 2) throw id; }
static void submit(SP S, int id) { S->pool->enqueue([S, id] { body(S, id); }); S->pub[id]++; }
// the payload of an exception is read outside TSan's view: libstdc++ counts exception_ptr references in uninstrumented code
__attribute__((noinline, no_sanitize_thread)) static int idOf(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (const Boom& b) { return b.id; } catch (int i) { return i; } catch (...) { return -1; } return -2; }
// a forest: jobs 0..roots-1 are roots, later ones hang under an earlier job
static std::vector<Job> forest(Src& s, int roots, int more, int thrNum) { std::vector<Job> J; int mode = (int)s.i(0, 3); for (int i = 0; i < roots + more; i++) { Job j; j.pre = mode == 0 ? 0 : (int)s.i(0, mode == 1 ? 5 : 12); j.post = mode == 0 ? 0 : (int)s.i(0, mode == 2 ? 12 : 4); j.thr = s.chance(thrNum, 8) ? (int)s.i(1, 2) : 0; if (i >= roots) J[(size_t)s.i(std::max(0, i - 6), i - 1)].kids.push_back(i); J.push_back(j); } return J; }
__attribute__((noinline, no_sanitize_thread)) static int rethrowId(ThreadPool* p) { try { p->rethrow_if_exception(); } catch (const Boom& b) { return b.id; } catch (int i) { return i; } return -9; }
static int throwers(const State& S) { int k = 0; for (auto& j : S.jobs) k += j.thr != 0; return k; }
static std::string desc(const std::vector<Job>& J) { std::ostringstream o; for (size_t i = 0; i < J.size(); i++) { o << " " << i << "(" << J[i].pre << "," << J[i].post << (J[i].thr ? ",throws" : ""); for (int k : J[i].kids) o << " ->" << k; o << ")"; } return o.str(); }
static void allOnce(const State& S, const char* when) { for (size_t i = 0; i < S.jobs.size(); i++) CHECK(S.ran[i] == 1 && S.fin[i] == 1, when << ": task " << i << " started " << S.ran[i] << " and finished " << S.fin[i] << " times"); }
static void idle(ThreadPool& p) { CHECK(eventually([&] { return !p.has_tasks() && p.pending_tasks() == 0 && p.queued_tasks() == 0; }), "has_tasks " << p.has_tasks() << " pending " << p.pending_tasks() << " queued " << p.queued_tasks() << " after everything finished"); }
static void destroy(ThreadPool* p) { CHECK(returns([p] { delete p; }), "the destructor did not return"); }
static void drain(ThreadPool& p, const State& S, std::multiset<int> got = {}) { size_t n = p.exception_count() + got.size(); CHECK((int)n == throwers(S), n << " exceptions recorded, " << throwers(S) << " tasks threw"); CHECK(p.has_exceptions() == (p.exception_count() > 0), "has_exceptions"); while (auto e = p.get_exception()) got.insert(idOf(e)); std::multiset<int> want; for (size_t i = 0; i < S.jobs.size(); i++) if (S.jobs[i].thr) want.insert((int)i); CHECK(got == want, "the recorded exceptions are not those thrown"); CHECK(!p.has_exceptions() && p.exception_count() == 0 && !p.get_exception(), "exceptions remain after draining"); p.rethrow_if_exception(); }
LAW(graphs, 900, 12000) { Chaos chaosScope(s); int n = (int)s.i(1, 6), roots = (int)s.i(1, 20), more = (int)s.i(0, 15), np = (int)s.i(0, 3), nw = (int)s.i(0, 2), rounds = (int)s.i(1, 3); std::vector<SP> st; for (int r = 0; r < rounds; r++) st.push_back(std::make_shared<State>(forest(s, roots, more, s.b() ? 1 : 0))); std::vector<int> gap; for (int i = 0; i < 12; i++) gap.push_back((int)s.i(0, 9)); c.nontrivial(roots + more >= 3); c.label(np ? "producers" : "main only"); if (more) c.label("nested");
  c.say([&](auto& o) { o << n << " threads, " << np << " producers, " << nw << " waiters, " << rounds << " rounds, first:" << desc(st[0]->jobs); });
  ThreadPool* p = new ThreadPool(n); CHECK((int)p->thread_count() == n, "thread_count " << p->thread_count());
  for (SP S : st) { S->pool = p; auto bad = std::make_shared<AI>(-1); std::vector<std::thread> th; auto wdone = std::make_shared<AI>(0), pdone = std::make_shared<AI>(0);
    for (int k = 0; k < np; k++) th.emplace_back([=] { for (int i = k; i < roots; i += np) { pause_(gap[(i * 5 + k) % 12]); submit(S, i); } (*pdone)++; });
    for (int k = 0; k < nw; k++) th.emplace_back([=] { pause_(gap[k]); std::vector<int> seen; for (size_t i = 0; i < S->jobs.size(); i++) if (S->pub[i]) seen.push_back((int)i); p->wait_for_tasks(); for (int i : seen) if (!S->fin[i]) bad->store(i); (*wdone)++; });
    if (!np) for (int i = 0; i < roots; i++) { pause_(gap[i % 12] / 3); submit(S, i); }
    bool okP = eventually([&] { return pdone->load() == np; }); CHECK((okP || (th.clear(), false)), "enqueue did not return");
    bool ok = returns([p] { p->wait_for_tasks(); }); if (!ok) for (auto& t : th) t.detach(); CHECK(ok, "wait_for_tasks did not return; " << p->queued_tasks() << " queued, " << p->pending_tasks() << " in flight");
    std::string done; for (size_t i = 0; i < S->jobs.size(); i++) if (S->ran[i] != 1 || S->fin[i] != 1) done += " " + std::to_string(i) + ":" + std::to_string(S->ran[i]) + "/" + std::to_string(S->fin[i]);
    ok = eventually([&] { return wdone->load() == nw; }); for (auto& t : th) if (ok) t.join(); else t.detach(); CHECK(ok, "a concurrent wait_for_tasks did not return");
    CHECK(done.empty(), "wait_for_tasks returned with tasks not run exactly once (id:started/finished):" << done); CHECK(bad->load() < 0, "a waiter returned before task " << bad->load() << " (submitted before it waited) had finished"); allOnce(*S, "after waiting"); idle(*p); drain(*p, *S); allOnce(*S, "later"); }
  destroy(p); for (SP S : st) allOnce(*S, "after destruction"); for (SP& S : st) CHECK(eventually([&] { return S.use_count() == 1; }), "a task object outlives the pool"); }
LAW(gates, 500, 6000) { Chaos chaosScope(s); int n = (int)s.i(1, 5), m = (int)s.i(1, 12), nw = (int)s.i(1, 3); struct G { std::vector<AI> started, gate; std::mutex mu; std::vector<int> order; G(int m) : started(m), gate(m) { for (int i = 0; i < m; i++) started[i] = gate[i] = 0; } }; auto g = std::make_shared<G>(m); std::vector<int> thr, pickr; for (int i = 0; i < m; i++) { thr.push_back((int)s.i(0, 2)); pickr.push_back((int)s.i(0, 99)); } bool cb = s.b(), peek = s.chance(1, 3); c.nontrivial(m > 1); if (m > n) c.label("queue");
  c.say([&](auto& o) { o << n << " threads, " << m << " gated tasks, " << nw << " waiters"; }); ThreadPool* p = new ThreadPool(n); auto cbs = std::make_shared<std::vector<int>>(); auto cmu = std::make_shared<std::mutex>(); if (cb) p->set_error_callback([=](std::exception_ptr e) { std::lock_guard<std::mutex> l(*cmu); cbs->push_back(idOf(e)); });
  for (int i = 0; i < m; i++) p->enqueue([=] { { std::lock_guard<std::mutex> l(g->mu); g->order.push_back(i); } g->started[i] = 1; while (!g->gate[i]) std::this_thread::sleep_for(std::chrono::microseconds(20)); if (thr[i] == 1) throw Boom(i); if (thr[i] == 2) throw i; });
  auto wd = std::make_shared<AI>(0); std::vector<std::thread> W; for (int i = 0; i < nw; i++) W.emplace_back([=] { p->wait_for_tasks(); (*wd)++; });
  struct Rel { std::shared_ptr<G> g; std::vector<std::thread>& W; bool armed = true; ~Rel() { if (armed) { for (auto& x : g->gate) x = 1; for (auto& t : W) t.detach(); } } } rel{g, W};
  std::vector<int> fly, want; int next = 0; for (; next < std::min(n, m); next++) fly.push_back(next);
  for (int step = 0;; step++) { std::string fl; for (int i : fly) fl += " " + std::to_string(i); int q = m - next; int F = (int)fly.size(); CHECK(eventually([&] { for (int i : fly) if (!g->started[i]) return false; return (int)p->pending_tasks() == F && (int)p->queued_tasks() == q; }), "tasks" << fl << " should be running on " << n << " threads with " << q << " waiting; pool says " << p->pending_tasks() << " running, " << p->queued_tasks() << " waiting"); for (int i = next; i < m; i++) CHECK(!g->started[i], "task " << i << " started ahead of its turn"); CHECK((int)p->exception_count() == (int)want.size(), p->exception_count() << " exceptions after " << want.size() << " throws");
    if (fly.empty()) break; CHECK(p->has_tasks(), "has_tasks is false with tasks running"); if (peek) std::this_thread::sleep_for(std::chrono::microseconds(300)); CHECK(wd->load() == 0, "wait_for_tasks returned while tasks" << fl << " were still running");
    int k = pickr[step] % (int)fly.size(), id = fly[k]; fly.erase(fly.begin() + k); if (thr[id]) want.push_back(id); if (next < m) fly.push_back(next++); g->gate[id] = 1; }
  CHECK(eventually([&] { return wd->load() == nw; }), "wait_for_tasks did not return after the last task finished"); rel.armed = false; for (auto& t : W) t.join(); CHECK(!p->has_tasks(), "has_tasks after the last task");
  if (n == 1) for (int i = 0; i < m; i++) CHECK(g->order[i] == i, "one worker ran the tasks out of order"); if (cb) { CHECK(eventually([&] { std::lock_guard<std::mutex> l(*cmu); return cbs->size() >= want.size(); }), "callback not invoked for every exception"); std::lock_guard<std::mutex> l(*cmu); CHECK(*cbs == want, "callback order or count differs from the throws"); }
  size_t k = 0; bool re = pickr[0] & 1; for (; k < want.size(); k++) { int id; if (re && k % 2) id = rethrowId(p); else { auto e = p->get_exception(); CHECK((bool)e, "exception missing"); id = idOf(e); } CHECK(id == want[k], "exception " << k << " came from task " << id << ", thrown by task " << want[k]); if (pickr[k] % 7 == 0) { p->clear_exceptions(); k = want.size(); break; } } CHECK(!p->has_exceptions() && p->exception_count() == 0, "exceptions left"); destroy(p); }
LAW(shutdown, 900, 12000) { Chaos chaosScope(s); int n = (int)s.i(1, 6), roots = (int)s.i(0, 25), more = roots ? (int)s.i(0, 12) : 0; int delay = (int)s.i(0, 12); bool wait = s.chance(1, 4); auto S = std::make_shared<State>(forest(s, roots, more, 1)); c.nontrivial(roots > 0); if (more) c.label("submits while stopping"); c.say([&](auto& o) { o << n << " threads, destroyed after delay " << delay << (wait ? " and a wait" : "") << ":" << desc(S->jobs); });
  ThreadPool* p = new ThreadPool(n); S->pool = p; for (int i = 0; i < roots; i++) submit(S, i); if (wait) CHECK(returns([p] { p->wait_for_tasks(); }), "wait_for_tasks did not return"); pause_(delay); destroy(p); allOnce(*S, "after destruction"); CHECK(S.use_count() == 1, "a task object outlives the pool"); }
LAW(failures, 700, 9000) { Chaos chaosScope(s); int n = (int)s.i(1, 5), roots = (int)s.i(2, 20), more = (int)s.i(0, 8), nc = (int)s.i(0, 2), swap = (int)s.i(0, 3); bool cbThrows = s.b(), hasCb = s.chance(3, 4); auto S = std::make_shared<State>(forest(s, roots, more, 4)); int T = throwers(*S); c.nontrivial(T > 1); if (nc) c.label("concurrent consumers"); if (swap) c.label("callback replaced"); c.say([&](auto& o) { o << n << " threads, " << nc << " consumers, callback " << hasCb << cbThrows << swap << ":" << desc(S->jobs); });
  ThreadPool* p = new ThreadPool(n); S->pool = p; if (hasCb) p->set_error_callback([S, cbThrows](std::exception_ptr e) { if (e) S->cb++; if (cbThrows) throw std::logic_error("callback"); }); auto stop = std::make_shared<AI>(0), cd = std::make_shared<AI>(0); auto mu = std::make_shared<std::mutex>(); auto got = std::make_shared<std::multiset<int>>(); std::vector<std::thread> th;
  for (int k = 0; k < nc; k++) th.emplace_back([=] { while (!stop->load()) { p->has_exceptions(); p->exception_count(); p->has_tasks(); p->pending_tasks(); p->queued_tasks(); int id = -9; if (k == 0) { if (auto e = p->get_exception()) id = idOf(e); } else id = rethrowId(p); if (id != -9) { std::lock_guard<std::mutex> l(*mu); got->insert(id); } std::this_thread::sleep_for(std::chrono::microseconds(15)); } (*cd)++; });
  int npoll = (int)s.i(0, 3); for (int k = 0; k < npoll; k++) { int kind = (int)s.i(0, 5); th.emplace_back([=] { size_t sink = 0; while (!stop->load(std::memory_order_relaxed)) { switch (kind) { case 0: sink += p->has_exceptions(); break; case 1: sink += p->exception_count(); break; case 2: sink += p->has_tasks(); break; case 3: sink += p->queued_tasks(); break; case 4: sink += p->pending_tasks(); break; default: p->set_error_callback([S](std::exception_ptr) { S->cb2++; }); } std::this_thread::yield(); } (*cd)++; }); } nc += npoll;
  for (int i = 0; i < roots; i++) { submit(S, i); if (swap && i % 4 == 3) p->set_error_callback([S](std::exception_ptr) { S->cb2++; }); }
  bool ok = returns([p] { p->wait_for_tasks(); }); stop->store(1); bool ok2 = eventually([&] { return cd->load() == nc; }); for (auto& t : th) if (ok2) t.join(); else t.detach(); CHECK(ok, "wait_for_tasks did not return after tasks threw"); CHECK(ok2, "an exception query did not return"); allOnce(*S, "after waiting"); drain(*p, *S, *got);
  bool always = hasCb || false; int calls = S->cb + S->cb2; if (always) CHECK(calls == T, "callback invoked " << calls << " times for " << T << " exceptions"); else CHECK(S->cb == 0 && calls <= T, "callback invoked " << calls << " times for " << T << " exceptions");
  bool clear = s.b(); if (clear) { p->enqueue([] { throw 7; }); p->enqueue([] { throw 8; }); CHECK(returns([p] { p->wait_for_tasks(); }), "wait_for_tasks did not return"); CHECK(p->exception_count() == 2 && p->has_exceptions(), "two more exceptions"); p->clear_exceptions(); CHECK(!p->has_exceptions() && p->exception_count() == 0 && !p->get_exception(), "clear_exceptions left something"); } destroy(p); }
LAW(parallel_map, 500, 6000) { Chaos chaosScope(s); int n = (int)s.i(1, 6), N = (int)s.i(0, 60), style = (int)s.i(0, 2), phases = (int)s.i(1, 3); c.nontrivial(N > 1); c.say([&](auto& o) { o << n << " threads, " << N << " items, style " << style << ", " << phases << " phases"; });
  // the documented patterns with plain (unsynchronised) data: the pool's own synchronisation must order them
  std::vector<double> a(N), b(N), want(N); for (int i = 0; i < N; i++) want[i] = a[i] = (double)s.i(-100, 100); { ThreadPool pool(n); for (int ph = 0; ph < phases; ph++) { std::atomic<size_t> idx{0}; if (style == 0) for (size_t t = 0; t < pool.thread_count(); t++) pool.enqueue([&] { size_t i; while ((i = idx.fetch_add(1)) < a.size()) b[i] = 2 * a[i] + 1; }); else if (style == 1) for (int i = 0; i < N; i++) pool.enqueue([&a, &b, i] { b[i] = 2 * a[i] + 1; }); else for (int i0 = 0; i0 < N; i0 += 7) pool.enqueue([&a, &b, i0, N] { for (int i = i0; i < std::min(N, i0 + 7); i++) b[i] = 2 * a[i] + 1; }); pool.wait_for_tasks(); for (int i = 0; i < N; i++) { want[i] = 2 * want[i] + 1; CHECK(b[i] == want[i], "item " << i << " phase " << ph << ": " << b[i] << " vs " << want[i]); } a = b; } for (int i = 0; i < N; i++) pool.enqueue([&a, i] { a[i] = -a[i]; }); } for (int i = 0; i < N; i++) CHECK(a[i] == -want[i], "work submitted before destruction is missing at " << i); CHECK_THROWS(ThreadPool(0), std::invalid_argument, "zero threads"); }

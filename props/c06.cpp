// C06: concurrent calls do not interfere under any interleaving.
// "trace" libraries call back at every basic block, load and store; real threads pass one token, so the interleaving is a function of the case.
#include "ops.hpp"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <cerrno>
#include <set>
#include <cstdarg>
#define VIS extern "C" __attribute__((visibility("default")))
// ---- scheduler
static const int MAXT = 4;
struct Sched {
  int n = 0; std::atomic<int> tok[MAXT]; bool done[MAXT]; int cur = -1; uint64_t step = 0, next = UINT64_MAX, switches = 0; std::vector<std::pair<uint64_t, int>> plan; size_t pi = 0; Rng r; uint64_t mean = 0, dense_left = 0; std::atomic<bool> freerun{false}; std::atomic<uint64_t> beat{0};
  void arm() { if (mean) { next = dense_left ? step + 1 + (mean <= 1 ? 0 : r.next() % (2 * mean)) : UINT64_MAX; if (dense_left) dense_left--; } else next = pi < plan.size() ? plan[pi].first : UINT64_MAX; }
};
static Sched *SC; static thread_local int me = -1;
static void fwait(std::atomic<int> &t) { while (!t.load(std::memory_order_acquire)) { struct timespec ts{0, 200000000}; uint64_t b = SC->beat; syscall(SYS_futex, &t, FUTEX_WAIT, 0, &ts, 0, 0); if (!t.load() && SC->beat == b && SC->step == 0) continue; if (SC->freerun) return; static thread_local uint64_t last = 0, same = 0; if (!t.load()) { if (SC->beat == last) { if (++same > 10) { SC->freerun = true; for (int i = 0; i < SC->n; i++) { SC->tok[i] = 1; syscall(SYS_futex, &SC->tok[i], FUTEX_WAKE, 1, 0, 0, 0); } return; } } else same = 0; last = SC->beat; } } t.store(0, std::memory_order_relaxed); }
static void give(int to) { SC->cur = to; SC->tok[to].store(1, std::memory_order_release); syscall(SYS_futex, &SC->tok[to], FUTEX_WAKE, 1, 0, 0, 0); }
static void point() {
  Sched &S = *SC; if (S.freerun.load(std::memory_order_relaxed)) return; if (++S.step < S.next) { if (!(S.step & 4095)) S.beat++; return; }
  S.beat++; int to = -1; if (S.mean) { int k = S.r.next() % S.n; for (int i = 0; i < S.n; i++) { int j = (k + i) % S.n; if (j != me && !S.done[j]) { to = j; break; } } } else { int k = S.plan[S.pi++].second; for (int i = 0; i < S.n; i++) { int j = (k + i) % S.n; if (j != me && !S.done[j]) { to = j; break; } } }
  S.arm(); if (to < 0) return; S.switches++; int self = me; give(to); fwait(S.tok[self]);
}
static inline void cb() { if (me >= 0) point(); }
VIS void __sanitizer_cov_trace_pc_guard(uint32_t *) { cb(); } VIS void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
VIS void __sanitizer_cov_load1(void *) { cb(); } VIS void __sanitizer_cov_load2(void *) { cb(); } VIS void __sanitizer_cov_load4(void *) { cb(); } VIS void __sanitizer_cov_load8(void *) { cb(); } VIS void __sanitizer_cov_load16(void *) { cb(); }
VIS void __sanitizer_cov_store1(void *) { cb(); } VIS void __sanitizer_cov_store2(void *) { cb(); } VIS void __sanitizer_cov_store4(void *) { cb(); } VIS void __sanitizer_cov_store8(void *) { cb(); } VIS void __sanitizer_cov_store16(void *) { cb(); }
#include "osstub.hpp"
// ---- running threads
static void finish_thread(int self) { Sched &S = *SC; me = -1; S.done[self] = true; S.beat++; if (S.freerun) return; for (int i = 0; i < S.n; i++) if (!S.done[i]) { give(i); return; } }
static thread_local int self_id;
static void leave() { finish_thread(self_id); pthread_exit(nullptr); }
struct TArg { int id; std::function<void()> f; bool sched; pthread_barrier_t *bar; };
static void *tmain(void *v) { TArg *a = (TArg *)v; self_id = a->id; if (a->sched) { fwait(SC->tok[a->id]); me = a->id; a->f(); finish_thread(a->id); } else { pthread_barrier_wait(a->bar); a->f(); } return nullptr; }
// run all; false if they do not finish
static bool run_threads(std::vector<std::function<void()>> fs, Sched *S, int first) {
  SC = S; size_t n = fs.size(); std::vector<TArg> A(n); std::vector<pthread_t> T(n); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, n); cpu_set_t old; bool pin = S && !sched_getaffinity(0, sizeof old, &old);
  if (S) { S->n = n; for (size_t i = 0; i < n; i++) { S->tok[i] = 0; S->done[i] = false; } S->arm(); int c = sched_getcpu(); if (pin && c >= 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); } }
  for (size_t i = 0; i < n; i++) { A[i] = {(int)i, fs[i], S != nullptr, &bar}; pthread_create(&T[i], nullptr, tmain, &A[i]); } if (S) give(first % n);
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 60; for (auto &t : T) if (pthread_timedjoin_np(t, nullptr, &ts)) return false; if (pin) sched_setaffinity(0, sizeof old, &old); return true;
}
static std::vector<KLib> STD, TR;
// programs: thread -> operations
static std::vector<std::vector<Op>> gen_programs(Src &s, World &W, const std::vector<KLib> &RUN, unsigned nt, unsigned maxops, std::string &log) {
  std::vector<std::vector<Op>> P(nt); OpGen G(s, W, RUN, STD);
  for (unsigned t = 0; t < nt; t++) { unsigned n = 1 + s.draw(maxops - 1); log += strf(" T%u:", t); for (unsigned i = 0; i < n; i++) P[t].push_back(G.gen(log)); }
  return P;
}
static void compare(Ctx &c, std::vector<std::vector<Op>> &P, const std::string &log) { for (size_t t = 0; t < P.size(); t++) for (size_t i = 0; i < P[t].size(); i++) { Op &o = P[t][i]; if (o.o1 != o.x1 || o.o2 != o.x2) c.fail(strf("thread %zu, operation %zu (%s.%s): result differs from the same call run alone;", t, i, o.l->name().c_str(), ON[o.kind]) + log); } }
static std::string gen_schedule(Src &s, Sched &S, uint64_t est) {
  if (s.coin(1, 2)) { unsigned d = 1 + s.draw(7); for (unsigned i = 0; i < d; i++) { uint64_t hi = s.coin(1, 3) ? 2000 : est; S.plan.push_back({1 + s.draw(hi), (int)s.draw(MAXT - 1)}); } std::sort(S.plan.begin(), S.plan.end()); for (size_t i = 1; i < S.plan.size(); i++) if (S.plan[i].first <= S.plan[i - 1].first) S.plan[i].first = S.plan[i - 1].first + 1; std::string r; for (auto &p : S.plan) r += strf(" %llu->%d", (unsigned long long)p.first, p.second); return " preempted at" + r; }
  static const uint64_t M[] = {20000, 5000, 1000, 300, 100, 30, 10, 3, 1}; S.mean = M[s.draw(8)]; S.r = Rng(s.draw(UINT64_MAX)); S.dense_left = 1500; if (S.mean < 300 && s.coin(1, 2)) { /* dense window later */ } return strf(" preempted about every %llu points", (unsigned long long)S.mean);
}
struct Ent { std::string name; void *h; void (*f)(uint8_t *, size_t); }; static std::vector<Ent> EN;
void define_check(Check &c, int) {
  c.id = "C06";
  c.rule = "Programs of 2-4 threads with generated API calls over shared inputs, run (1) under a deterministic scheduler that owns every basic block, load and store of the compiled code (few chosen preemptions, or dense ones of every mean distance), (2) freely on all cores. Every case is a fresh process, so first-use paths are included. Oracle: the same call alone in another copy of the library. The entropy source's platform branches run the same way over a scripted OS. Non-trivial: at least two threads were inside calls at once (a switch happened).";
  c.assumptions = {"Preemption between instrumented points of clang -O0 and -O1 code; assembly routines are atomic steps in the scheduled runs.", "Sequentially consistent memory in scheduled runs; the machine's own in free runs."};
  STD = load_all("std"); TR = load_all("trace"); for (auto &l : load_all("trace0")) TR.push_back(l); std::string d = envs("VF_ENTROPY", "");
  for (const char *impl : {"ref", "avx2"}) for (const char *b : {"linux", "netbsd", "generic"}) { std::string f = d + "/" + impl + "_" + b + "_trace.so"; if (access(f.c_str(), R_OK)) continue; Ent e; e.name = std::string(impl) + " randombytes (" + b + ")"; e.h = dlopen(f.c_str(), RTLD_LAZY | RTLD_LOCAL); if (e.h && (*(void **)&e.f = dlsym(e.h, "randombytes"))) EN.push_back(e); }
  c.add("scheduled_operations", 30000, 1500000, [](Src &s, Ctx &c) {
    World W; Sched S; std::string log; unsigned nt = 2 + s.weighted({6, 2, 1}); std::string sch = gen_schedule(s, S, 400000); auto P = gen_programs(s, W, TR, nt, 3, log); std::vector<Bytes> before; for (auto &m : W.mem) before.push_back(*m); std::vector<std::function<void()>> fs; for (auto &p : P) fs.push_back([&p] { for (auto &o : p) exec(o, *o.l, o.o1, o.o2); });
    if (!run_threads(fs, &S, s.draw(3))) c.fail("the threads do not finish;" + log + sch); compare(c, P, log + sch); for (size_t i = 0; i < before.size(); i++) if (*W.mem[i] != before[i]) c.fail("a shared input was written;" + log + sch);
    if (S.switches) c.nontrivial(); c.labels["preemptions"] += S.switches; c.labels["points"] += S.step; if (S.freerun) c.label("fell back to free running"); if (c.sampling()) c.sample(log + sch + strf(" (%llu points, %llu switches)", (unsigned long long)S.step, (unsigned long long)S.switches));
  }); c.last().isolate = true; c.last().cpu = 60;
  c.add("free_running_operations", 600, 40000, [](Src &s, Ctx &c) {
    World W; std::string log; unsigned nt = 2 + s.draw(6); auto P = gen_programs(s, W, s.coin(1, 2) ? STD : TR, nt, 6, log); std::vector<std::function<void()>> fs; bool bad = false; std::string first; for (auto &p : P) fs.push_back([&p, &bad, &first] { for (int rep = 0; rep < 40 && !bad; rep++) for (auto &o : p) { std::fill(o.o1.begin(), o.o1.end(), rep); std::fill(o.o2.begin(), o.o2.end(), rep); exec(o, *o.l, o.o1, o.o2); if (o.o1 != o.x1 || o.o2 != o.x2) { bad = true; return; } } });
    if (!run_threads(fs, nullptr, 0)) c.fail("the threads do not finish;" + log); if (bad) c.fail("a call returned something else than alone while other threads ran;" + log); c.nontrivial(); if (c.sampling()) c.sample(log);
  }); c.last().isolate = true; c.last().cpu = 200;
  if (!EN.empty()) c.add("scheduled_entropy", 40000, 2000000, [](Src &s, Ctx &c) {
    Ent &e = EN[s.draw(EN.size() - 1)]; OS o; os = &o; o.stream = 1 + s.draw(1000); unsigned ni = s.draw(4), nr = s.draw(6); for (unsigned i = 0; i < ni; i++) o.open_ev.push_back(s.coin(2, 3) ? -1 : 0); for (unsigned i = 0; i < nr; i++) o.read_ev.push_back(s.coin(1, 3) ? -1 : (int)s.draw(40)); unsigned nt = 2 + s.draw(1); Sched S; std::string log = e.name + strf(", %u threads, open:", nt); for (int x : o.open_ev) log += x < 0 ? " EINTR" : " ok"; std::string sch;
    if (s.coin(1, 2)) { unsigned dd = 1 + s.draw(5); for (unsigned i = 0; i < dd; i++) S.plan.push_back({1 + s.draw(60), (int)s.draw(MAXT - 1)}); std::sort(S.plan.begin(), S.plan.end()); for (size_t i = 1; i < S.plan.size(); i++) if (S.plan[i].first <= S.plan[i - 1].first) S.plan[i].first = S.plan[i - 1].first + 1; for (auto &p : S.plan) sch += strf(" %llu->%d", (unsigned long long)p.first, p.second); } else { S.mean = 1 + s.draw(6); S.dense_left = 1000; S.r = Rng(s.draw(UINT64_MAX)); sch = strf(" preempted every %llu", (unsigned long long)S.mean); }
    std::vector<std::vector<std::pair<Bytes, TLog>>> R(nt); std::vector<std::function<void()>> fs; for (unsigned t = 0; t < nt; t++) { unsigned k = 1 + s.draw(1); for (unsigned i = 0; i < k; i++) R[t].push_back({Bytes(s.draw(1) ? 32 : s.draw(100), 0xC3), TLog()}); fs.push_back([&R, &e, t] { for (auto &x : R[t]) { x.second.out = x.first.data(); tl = &x.second; e.f(x.first.data(), x.first.size()); x.second.got = 1; } }); }
    bool fin = run_threads(fs, &S, s.draw(2)); if (!fin) c.fail("the threads do not finish; " + log + sch); if (!o.bad.empty()) c.fail(log + ": " + o.bad + ";" + sch);
    for (auto &r : R) for (auto &x : r) if (!x.second.got || x.first != x.second.sent) c.fail(log + ": the buffer of a thread does not hold the bytes delivered to it;" + sch); if (S.switches) c.nontrivial(); c.label(e.name.substr(e.name.find('('))); if (c.sampling()) c.sample(log + sch); os = nullptr;
  }); c.last().isolate = true;
}

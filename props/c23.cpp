// C23: an operation may be interrupted at any instruction by other operations of the same thread, abandoned there, or the process forked there.
#include "ops.hpp"
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/wait.h>
#include <ucontext.h>
static void cb();
#include "osstub.hpp"
#define VIS extern "C" __attribute__((visibility("default")))
// ---- points of interruption: every basic block, load and store of instrumented code, and from there any number of instructions on
struct Plan { uint64_t at; unsigned instr; std::function<void()> f; int used = 0; };
static std::vector<Plan> PL; static volatile size_t pi_; static volatile uint64_t step_, next_ = UINT64_MAX; static volatile bool on; static volatile unsigned left_; static std::function<void()> *volatile trapf; static volatile uint64_t fired, fired_instr; static volatile int depth;
static void arm() { next_ = pi_ < PL.size() ? PL[pi_].at : UINT64_MAX; }
static void enter(std::function<void()> &f) { auto a = rb_src; auto b = rb_left; TLog *t = tl; int e = errno; fired++; depth++; f(); depth--; rb_src = a; rb_left = b; tl = t; errno = e; }
static void on_trap(int, siginfo_t *, void *u) { ucontext_t *c = (ucontext_t *)u; if (left_ && (left_ = left_ - 1)) return; c->uc_mcontext.gregs[REG_EFL] &= ~0x100ull; if (trapf) { auto *f = trapf; trapf = nullptr; fired_instr++; enter(*f); } }
static void __attribute__((noinline)) fire() { size_t k = pi_; if (k >= PL.size() || step_ < PL[k].at) return; if (__atomic_exchange_n(&PL[k].used, 1, __ATOMIC_SEQ_CST)) return; pi_ = k + 1; arm(); Plan &p = PL[k]; if (!p.instr || trapf) enter(p.f); else { trapf = &p.f; left_ = p.instr + 8; __asm__ volatile("" ::: "memory"); __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | 0x100); __asm__ volatile("" ::: "memory"); } }
static void cb() { if (on && ++step_ >= next_) fire(); }
VIS void __sanitizer_cov_trace_pc_guard(uint32_t *) { cb(); } VIS void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
VIS void __sanitizer_cov_load1(void *) { cb(); } VIS void __sanitizer_cov_load2(void *) { cb(); } VIS void __sanitizer_cov_load4(void *) { cb(); } VIS void __sanitizer_cov_load8(void *) { cb(); } VIS void __sanitizer_cov_load16(void *) { cb(); }
VIS void __sanitizer_cov_store1(void *) { cb(); } VIS void __sanitizer_cov_store2(void *) { cb(); } VIS void __sanitizer_cov_store4(void *) { cb(); } VIS void __sanitizer_cov_store8(void *) { cb(); } VIS void __sanitizer_cov_store16(void *) { cb(); }
static void leave() { _exit(9); }
static void start() { struct sigaction a {}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr); signal(SIGALRM, SIG_DFL); alarm(60); step_ = 0; pi_ = 0; fired = fired_instr = 0; trapf = nullptr; left_ = 0; depth = 0; std::stable_sort(PL.begin(), PL.end(), [](const Plan &x, const Plan &y) { return x.at < y.at; }); for (size_t i = 1; i < PL.size(); i++) if (PL[i].at <= PL[i - 1].at) PL[i].at = PL[i - 1].at + 1; arm(); on = true; }
static void stop() { trapf = nullptr; on = false; left_ = 1; alarm(0); }
static uint64_t gen_point(Src &s) { switch (s.weighted({3, 3, 3, 1})) { case 0: return 1 + s.draw(300000); case 1: return 1 + s.draw(20000); case 2: return 1 + s.draw(1000); default: return 1 + s.draw(3000000); } }
static unsigned gen_instr(Src &s) { return s.coin(1, 3) ? (s.coin(1, 2) ? 1 + s.draw(60) : 1 + s.draw(3000)) : 0; }
static std::vector<KLib> STD, TR;
static std::string differs(const Op &o) { return o.o1 != o.x1 || o.o2 != o.x2 ? o.l->name() + "." + ON[o.kind] : ""; }
static void run(Op &o, int fill) { std::fill(o.o1.begin(), o.o1.end(), fill); std::fill(o.o2.begin(), o.o2.end(), fill); exec(o, *o.l, o.o1, o.o2); }
struct Ent { std::string name; void *h; void (*f)(uint8_t *, size_t); }; static std::vector<Ent> EN;
struct Draw { Bytes out; TLog log; bool done = false; };
static void draw(Ent &e, Draw &d) { TLog *t = tl; d.log.out = d.out.data();  tl = &d.log; e.f(d.out.data(), d.out.size()); tl = t; d.done = true; }
static sigjmp_buf JB;
// child process after a fork: runs to the end of the case and reports through its exit status
static bool child; static pid_t kid = -1; static int kidfd = -1;
static void fork_here() { int p[2]; if (pipe(p)) return; fflush(nullptr); pid_t q = fork(); if (q < 0) { close(p[0]); close(p[1]); return; } if (!q) { close(p[0]); kidfd = p[1]; child = true; kid = -1; alarm(60); if (os) os->stream ^= 0x5bd1e995abcdull; } else { close(p[1]); kidfd = p[0]; kid = q; } }
static void settle(Ctx &c, const std::string &bad, const std::string &log) {
  if (child) { if (!bad.empty()) { ssize_t r = write(kidfd, bad.data(), bad.size()); (void)r; } _exit(bad.empty() ? 0 : 1); }
  if (kid > 0) { std::string m; char b[512]; ssize_t r; while ((r = read(kidfd, b, sizeof b)) > 0) m.append(b, r); close(kidfd); int st = 0; waitpid(kid, &st, 0); if (st) c.fail("in the process forked off: " + (m.empty() ? strf("ended with status 0x%x", st) : m) + ";" + log); }
  if (!bad.empty()) c.fail(bad + ";" + log);
}
void define_check(Check &c, int) {
  c.id = "C23";
  c.rule = "Generated operations interrupted at generated points (every basic block, load and store of the compiled code is one, and any instruction following it, reached by single-stepping, in assembly too): there, other operations run in the same thread on the same stack (nested up to the number of points), or the interrupted operation is abandoned with siglongjmp, or the process forks and both continue. Every case is a fresh process, so first-use paths are included. Oracle: each completed call returns what the same call alone returns from another copy of the library; the entropy source returns the bytes the scripted OS delivered to that call. Non-trivial: an interruption happened inside a call.";
  c.assumptions = {"Interruption points inside the C library are not included.", "The entropy stub of the harness is itself reentrant."};
  STD = load_all("std"); TR = load_all("trace"); for (auto &l : load_all("trace0")) TR.push_back(l); std::string d = envs("VF_ENTROPY", "");
  for (const char *impl : {"ref", "avx2"}) for (const char *b : {"linux", "netbsd", "generic"}) { std::string f = d + "/" + impl + "_" + b + "_trace.so"; if (access(f.c_str(), R_OK)) continue; Ent e; e.name = std::string(impl) + " randombytes (" + b + ")"; e.h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!e.h) e.h = dlopen(f.c_str(), RTLD_LAZY | RTLD_LOCAL); if (e.h && (*(void **)&e.f = dlsym(e.h, "randombytes"))) EN.push_back(e); }
  c.add("nested", 10000, 1200000, [](Src &s, Ctx &c) {
    World W; std::string log; OpGen G(s, W, TR, STD); std::vector<std::vector<Op>> N; unsigned np = 1 + s.draw(3); Op outer = G.gen(log); log += " interrupted"; std::vector<uint64_t> at; for (unsigned i = 0; i < np; i++) { uint64_t p = gen_point(s); unsigned in = gen_instr(s); log += strf(" at %llu+%u by", (unsigned long long)p, in); N.emplace_back(); unsigned n = 1 + s.draw(1); for (unsigned j = 0; j < n; j++) N.back().push_back(G.gen(log)); at.push_back(p); PL.push_back({p, in, nullptr}); }
    std::string bad; bool ran[8] = {}; for (unsigned i = 0; i < np; i++) { PL[i].f = [&N, &ran, i] { for (auto &o : N[i]) run(o, i); ran[i] = true; }; }
    std::vector<Bytes> before; for (auto &m : W.mem) before.push_back(*m); start(); run(outer, 0x77); stop(); for (unsigned i = 0; i < np; i++) if (ran[i]) for (auto &o : N[i]) { auto r = differs(o); if (!r.empty() && bad.empty()) bad = "the interrupting call " + r + " returned something else than alone"; } auto r = differs(outer); if (!r.empty() && bad.empty()) bad = "the interrupted call " + r + " returned something else than alone"; uint64_t f = fired; if (bad.empty()) { run(outer, 0x33); r = differs(outer); if (!r.empty()) bad = "the repetition of the interrupted call " + r + " returned something else than alone"; }
    for (size_t i = 0; i < before.size(); i++) if (*W.mem[i] != before[i]) bad = "an input was written"; PL.clear(); if (!bad.empty()) c.fail(bad + ";" + log); if (f) c.nontrivial(); c.labels["interruptions"] += f; c.labels["interruptions between two instructions reached by stepping"] += fired_instr; if (c.sampling()) c.sample(log + strf(" (%llu interruptions)", (unsigned long long)f));
  }); c.last().isolate = true; c.last().cpu = 60;
  c.add("abandoned", 7000, 800000, [](Src &s, Ctx &c) {
    World W; std::string log; OpGen G(s, W, TR, STD); std::string bad; static uint64_t gone; gone = 0; unsigned rounds = 1 + s.draw(2);
    for (unsigned k = 0; k < rounds; k++) { Op a = G.gen(log); uint64_t p = gen_point(s); unsigned in = gen_instr(s); log += strf(" abandoned at %llu+%u, then", (unsigned long long)p, in); PL.clear(); PL.push_back({p, in, [] { gone++; siglongjmp(JB, 1); }}); if (!sigsetjmp(JB, 1)) { start(); run(a, 0x77); } stop(); std::vector<Op> after; unsigned n = 1 + s.draw(2); for (unsigned j = 0; j < n; j++) after.push_back(G.gen(log)); after.push_back(a); alarm(60); for (auto &o : after) { run(o, 0x55); auto r = differs(o); if (!r.empty() && bad.empty()) bad = "after an abandoned call " + r + " returned something else than alone"; } alarm(0); }
    PL.clear(); if (!bad.empty()) c.fail(bad + ";" + log); if (gone) c.nontrivial(); c.labels["abandoned calls"] += gone; if (c.sampling()) c.sample(log);
  }); c.last().isolate = true; c.last().cpu = 60;
  c.add("forked", 4000, 400000, [](Src &s, Ctx &c) {
    World W; std::string log; OpGen G(s, W, TR, STD); std::string bad; child = false; kid = -1; os = nullptr; std::vector<Op> ops; unsigned n = 1 + s.draw(2); for (unsigned j = 0; j < n; j++) ops.push_back(G.gen(log)); uint64_t p = gen_point(s); unsigned in = gen_instr(s); log += strf(" forked at %llu+%u", (unsigned long long)p, in); PL.clear(); PL.push_back({p, in, fork_here}); start(); for (auto &o : ops) run(o, 0x77); stop(); for (auto &o : ops) { auto r = differs(o); if (!r.empty() && bad.empty()) bad = "a call around a fork, " + r + ", returned something else than alone"; } uint64_t f = fired; PL.clear();
    for (auto &o : ops) { run(o, 0x55); auto r = differs(o); if (!r.empty() && bad.empty()) bad = "after a fork " + r + " returned something else than alone"; } settle(c, bad, log); if (f) c.nontrivial(); c.labels["forks"] += f; if (c.sampling()) c.sample(log);
  }); c.last().isolate = true; c.last().cpu = 60;
  if (!EN.empty()) c.add("entropy", 24000, 1500000, [](Src &s, Ctx &c) {
    Ent &e = EN[s.draw(EN.size() - 1)]; OS o; os = &o; o.stream = 1 + s.draw(1000); unsigned ni = s.draw(3), nr = s.draw(6); for (unsigned i = 0; i < ni; i++) o.open_ev.push_back(s.coin(1, 2) ? -1 : 0); for (unsigned i = 0; i < nr; i++) o.read_ev.push_back(s.coin(1, 3) ? -1 : (int)s.draw(40)); std::string log = e.name; child = false; kid = -1; std::string bad; static uint64_t gone; gone = 0; std::vector<std::unique_ptr<Draw>> D; auto mk = [&] { D.push_back(std::make_unique<Draw>()); D.back()->out.assign(s.coin(1, 2) ? 32 : s.draw(300), 0xC3); D.back()->log.sent.reserve(4096); log += strf(" %zu bytes", D.back()->out.size()); return D.back().get(); };
    auto verify = [&](Draw *d) { if (d->done && d->out != d->log.sent && bad.empty()) bad = "the buffer does not hold exactly the bytes delivered to that call"; };
    unsigned mode = s.draw(2); unsigned np = mode == 1 ? 1 : 1 + s.draw(2); std::vector<Draw *> outer; unsigned no = 1 + s.draw(2); for (unsigned i = 0; i < no; i++) outer.push_back(mk()); log += mode == 0 ? " interrupted" : mode == 1 ? " abandoned" : " forked"; PL.clear(); bool forked = false; for (unsigned i = 0; i < np; i++) { uint64_t p = 1 + s.draw(60); unsigned in = s.coin(1, 3) ? 1 + s.draw(40) : 0; log += strf(" at %llu+%u", (unsigned long long)p, in); if (mode == 0) { Draw *d = mk(); PL.push_back({p, in, [&e, d] { draw(e, *d); }}); } else if (mode == 1) PL.push_back({p, in, [] { gone++; siglongjmp(JB, 1); }}); else PL.push_back({p, in, [&forked] { if (!forked) { forked = true; fork_here(); } }}); }
    if (mode == 1) { if (!sigsetjmp(JB, 1)) { start(); for (auto d : outer) draw(e, *d); } stop(); tl = nullptr; } else { start(); for (auto d : outer) draw(e, *d); stop(); } uint64_t f = fired; PL.clear(); for (unsigned i = 0; i < 3; i++) { Draw *d = mk(); alarm(60); draw(e, *d); alarm(0); } for (auto &d : D) verify(d.get()); if (!o.bad.empty() && bad.empty()) bad = o.bad; settle(c, bad, log); if (f) c.nontrivial(); c.label(mode == 0 ? "nested" : mode == 1 ? "abandoned" : "forked"); if (c.sampling()) c.sample(log); os = nullptr;
  }); c.last().isolate = true; c.last().cpu = 60;
}

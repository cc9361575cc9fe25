// C08: the entropy source fills every requested byte from the OS or aborts.
#include "lib.hpp"
#include "hashgen.hpp"
#include <csetjmp>
#include <cstdarg>
#include <cerrno>
#include <link.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <set>
#include <csignal>
#include <sys/time.h>
#include <time.h>
typedef void (*RB)(uint8_t *, size_t);
struct Mod { std::string name, branch; void *h; RB f; struct Seg { uint8_t *p; Bytes init; }; std::vector<Seg> seg; 
  void reset() { for (auto &s : seg) memcpy(s.p, s.init.data(), s.init.size()); } };
static std::vector<Mod> MODS, REAL;
static void snapshot(Mod &m) { struct Arg { Mod *m; uintptr_t base; } a{&m, ((link_map *)m.h)->l_addr};
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *v) { Arg *a = (Arg *)v; if (i->dlpi_addr != a->base) return 0; uintptr_t rl = 0, rh = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) rl = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, rh = (rl + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &p = i->dlpi_phdr[k]; if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue; uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz; if (rh > lo) lo = rh; if (lo < hi) { Mod::Seg s; s.p = (uint8_t *)lo; s.init.assign((uint8_t *)lo, (uint8_t *)hi); a->m->seg.push_back(s); } } return 1; }, &a); }
// ---- the scripted operating system
enum Ev { FULL, SHORT, EINTR_, ERRNO, ZERO };
struct Event { Ev e; size_t n; int err; bool perm; };
struct OS {
  std::vector<Event> script, opens; size_t ip = 0, io = 0; uint8_t *out = nullptr; size_t len = 0, delivered = 0, big = 0; bool temp = false; Bytes sent; uint64_t stream = 0; size_t calls = 0, after_perm = 0; bool perm = false, eof = false, hard = false, zero = false; std::set<int> fds; std::vector<int> fdplan; size_t ifd = 0; std::string bad; jmp_buf term; bool inside = false; bool terminated = false; size_t cap = 0; std::set<uintptr_t> ctx; uint64_t rel_fail = 0;
};
static thread_local OS *os;
static void stop(const std::string &m) { if (os->bad.empty()) os->bad = m; longjmp(os->term, 2); }
static void tick() { if (++os->calls > 4000000 + os->len) stop("does not finish although the OS delivers bytes"); if (os->perm && ++os->after_perm > 5000) stop("keeps going after a permanent failure of the OS"); }
static long request(uint8_t *b, size_t n, size_t maxn) {
  tick(); Event e{FULL, 0, 0, false}; if (os->perm) { errno = os->script.back().err; return -1; }
  if (os->ip < os->script.size()) e = os->script[os->ip++];
  switch (e.e) {
    case EINTR_: errno = EINTR; return -1; case ERRNO: errno = e.err; os->hard = true; if (e.perm) { os->perm = true; os->script.resize(os->ip); os->script.back() = e; } return -1; case ZERO: os->zero = true; return 0; default: break; }
  size_t k = std::min(n, maxn); if (e.e == SHORT) k = std::min(k, e.n); 
  bool inside = b >= os->out && b < os->out + os->len; if (os->len == 0 && n > 0 && b == os->out) stop("asks the OS to write although nothing was requested");
  if (inside && n > (size_t)(os->out + os->len - b)) stop(strf("asks the OS for %zu bytes where only %zu remain", n, (size_t)(os->out + os->len - b)));
  if (os->big) { if (!inside && n) os->temp = true; else if (n && b != os->out + os->delivered) stop(strf("byte %zu of the request is written at offset %zd", os->delivered, (ssize_t)(b - os->out))); os->delivered += k; return k; }
  for (size_t i = 0; i < k; i++) { uint8_t x = mix64(os->stream + os->sent.size()) | 0; b[i] = x; os->sent.push_back(x); } os->delivered += k; return k;
}
#define VIS extern "C" __attribute__((visibility("default")))
VIS long vf_syscall(long no, ...) { va_list a; va_start(a, no); uint8_t *b = va_arg(a, uint8_t *); size_t n = va_arg(a, size_t); va_end(a); if (no != SYS_getrandom) { tick(); errno = ENOSYS; return -1; } return request(b, n, os->cap ? os->cap : 33554431); }
VIS ssize_t vf_getrandom(void *b, size_t n, unsigned) { return request((uint8_t *)b, n, os->cap ? os->cap : 33554431); }
VIS int vf_getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } long r = request((uint8_t *)b, n, 256); if (r < 0) return -1; while ((size_t)r < n) { long q = request((uint8_t *)b + r, n - r, 256); if (q < 0) return -1; r += q; } return 0; }
static int do_open(const char *p) { tick(); if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) stop(strf("opens %s", p)); Event e{FULL, 0, 0, false}; if (os->io < os->opens.size()) { e = os->opens[os->io]; if (!e.perm) os->io++; else os->perm = true; } if (e.e == EINTR_) { errno = EINTR; return -1; } if (e.e == ERRNO) { os->hard = true; errno = e.err; return -1; } int fd = os->fdplan[os->ifd++ % os->fdplan.size()]; while (os->fds.count(fd)) fd++; os->fds.insert(fd); if (os->fds.size() > 64) stop("opens more and more descriptors"); return fd; }
VIS int vf_open(const char *p, int, ...) { return do_open(p); }
VIS int vf_open64(const char *p, int, ...) { return do_open(p); }
VIS int vf_openat(int, const char *p, int, ...) { return do_open(p); }
VIS ssize_t vf_read(int fd, void *b, size_t n) { if (!os->fds.count(fd)) { stop(strf("reads from descriptor %d that is not the entropy device", fd)); } return request((uint8_t *)b, n, os->cap ? os->cap : 0x7ffff000); }
VIS ssize_t vf___read_chk(int fd, void *b, size_t n, size_t) { return vf_read(fd, b, n); }
VIS int vf_close(int fd) { tick(); os->fds.erase(fd); return 0; }
VIS void vf_abort() { os->terminated = true; longjmp(os->term, 1); }
VIS void vf_exit(int) { vf_abort(); } VIS void vf__exit(int) { vf_abort(); } VIS void vf__Exit(int) { vf_abort(); } VIS void vf___assert_fail(const char *, const char *, unsigned, const char *) { vf_abort(); } VIS int vf_raise(int) { vf_abort(); return 0; }
VIS int vf_sched_yield() { tick(); return 0; } VIS int vf_usleep(unsigned) { tick(); return 0; } VIS int vf_nanosleep(const void *, void *) { tick(); return 0; } VIS unsigned vf_sleep(unsigned) { tick(); return 0; } VIS int vf_poll(void *, unsigned long, int) { tick(); return 1; }
VIS int vf_CryptAcquireContext(uintptr_t *p, const char *, const char *, uint32_t, uint32_t) { tick(); Event e{FULL, 0, 0, false}; if (os->io < os->opens.size()) { e = os->opens[os->io]; if (!e.perm) os->io++; else os->perm = true; } if (e.e != FULL) { os->hard = true; return 0; } *p = 0x1000 + os->ctx.size() * 16 + 7; os->ctx.insert(*p); return 1; }
VIS int vf_CryptGenRandom(uintptr_t h, uint32_t n, uint8_t *b) { if (!os->ctx.count(h)) stop("draws from a context that was not acquired"); size_t c = os->cap; os->cap = SIZE_MAX; Event e{FULL, 0, 0, false}; while (os->ip < os->script.size() && (os->script[os->ip].e == SHORT || os->script[os->ip].e == ZERO || os->script[os->ip].e == EINTR_)) os->ip++; long r = request(b, n, SIZE_MAX); os->cap = c; if (r < 0) return 0; return 1; }
VIS int vf_CryptReleaseContext(uintptr_t h, uint32_t) { tick(); if (!os->ctx.count(h)) stop("releases a context that was not acquired"); os->ctx.erase(h); if (os->rel_fail) { os->hard = true; return 0; } return 1; }
VIS uint32_t vf_GetLastError() { return 5; }
static int hard_errno(Src &s) { static const int e[] = {EIO, EAGAIN, ENOSYS, EFAULT, EINVAL, EPERM, EBADF, ENOMEM, ENOENT, EMFILE, EACCES}; return e[s.draw(10)]; }
static size_t gen_request(Src &s) { switch (s.weighted({4, 6, 4, 2, 1})) { case 0: return s.draw(80); case 1: { static const size_t e[] = {32, 64, 16, 48, 1, 0, 31, 33, 255, 256, 257, 511, 512}; return e[s.draw(12)]; } case 2: return s.draw(2000); case 3: return 4000 + s.draw(300); default: return 65536 - 3 + s.draw(6); } }
static void gen_script(Src &s, OS &o, bool perm_ok) {
  unsigned n = s.draw(12); for (unsigned i = 0; i < n; i++) { Event e{FULL, 0, 0, false}; switch (s.weighted({6, 4, 3, 1, 1})) { case 0: e.e = SHORT; switch (s.draw(2)) { case 0: e.n = 1; break; case 1: e.n = 1 + s.draw(63); break; default: e.n = 1 + s.draw(600); } break; case 1: { e.e = EINTR_; unsigned rep = s.coin(1, 6) ? s.draw(300) : 0; while (rep--) o.script.push_back(e); break; } case 2: e.e = FULL; break; case 3: e.e = ERRNO; e.err = hard_errno(s); e.perm = perm_ok && s.coin(3, 4); break; default: e.e = ZERO; break; } o.script.push_back(e); if (e.perm) break; }
  unsigned m = s.coin(1, 2) ? 0 : s.draw(4); for (unsigned i = 0; i < m; i++) { Event e{EINTR_, 0, 0, false}; if (s.coin(1, 5)) { e.e = ERRNO; e.err = hard_errno(s); e.perm = perm_ok && s.coin(3, 4); } o.opens.push_back(e); if (e.perm) break; }
  static const int fds[] = {3, 0, 1, 2, 7, 255, 1023}; unsigned f = 1 + s.draw(2); while (f--) o.fdplan.push_back(fds[s.draw(6)]); o.rel_fail = s.coin(1, 8);
}
static std::string show(const OS &o) { std::string r; for (auto &e : o.opens) r += e.e == EINTR_ ? "open:EINTR " : strf("open:errno%d%s ", e.err, e.perm ? "(permanent)" : ""); size_t k = 0; for (auto &e : o.script) { if (++k > 20) { r += "..."; break; } switch (e.e) { case FULL: r += "full "; break; case SHORT: r += strf("short(%zu) ", e.n); break; case EINTR_: r += "EINTR "; break; case ERRNO: r += strf("errno%d%s ", e.err, e.perm ? "(permanent)" : ""); break; default: r += "zero "; } } return r; }
// returns 0 returned, 1 terminated
static int call(Ctx &c, const Mod &m, OS &o, uint8_t *buf, size_t n, const std::string &w) {
  o.out = buf; o.len = n; o.delivered = 0; o.sent.clear(); o.terminated = false; o.calls = 0; os = &o; int r = setjmp(o.term); if (r == 0) { m.f(buf, n); os = nullptr; return 0; } os = nullptr; if (r == 2) c.fail(w + ": " + o.bad); return 1;
}
void define_check(Check &c, int tier) {
  c.id = "C08";
  c.rule = "randombytes is compiled for each platform branch with its OS calls redirected to a scripted OS; scripts of short reads, interruptions, transient and permanent errors, failing opens and any descriptor number are generated for histories of 1-4 requests. Oracle: it returns only with exactly the delivered bytes in order, canaries intact; it terminates after a permanent failure; it does not terminate when only short reads and interruptions occurred. Non-trivial: at least one script event other than a full read.";
  c.assumptions = {"The scripted OS stands in for the kernel and for the Windows provider (stand-in headers); bytes reported as delivered are written by it.", "A zero-byte result may be retried or treated as fatal."};
  std::string d = envs("VF_ENTROPY", "");
  for (const char *impl : {"ref", "avx2"}) { for (const char *b : {"linux", "netbsd", "generic", "windows"}) { std::string f = d + "/" + impl + "_" + b + ".so"; if (access(f.c_str(), R_OK)) continue; Mod m; m.name = std::string(impl) + " " + b; m.branch = b; m.h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!m.h) { c.notes["branch " + m.name] = std::string("not loadable: ") + dlerror(); continue; } m.f = (RB)dlsym(m.h, "randombytes"); if (!m.f) { c.notes["branch " + m.name] = "no randombytes symbol"; continue; } snapshot(m); MODS.push_back(m); }
    std::string f = d + "/" + impl + "_real.so"; Mod m; m.name = std::string(impl) + " real"; m.h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (m.h && (m.f = (RB)dlsym(m.h, "randombytes"))) REAL.push_back(m); }
  if (MODS.empty()) { fprintf(stderr, "no entropy branch available\n"); exit(2); }
  c.add("scripted_histories", 2500000, 200000000, [](Src &s, Ctx &c) {
    Mod &m = MODS[s.draw(MODS.size() - 1)]; m.reset(); OS o; o.stream = s.draw(UINT64_MAX); static const int en[] = {0, EINTR, EAGAIN}; errno = en[s.draw(2)]; unsigned calls = 1 + s.draw(3); if (s.coin(1, 8)) o.cap = 1 + s.draw(300); gen_script(s, o, true); bool used = !o.script.empty() || !o.opens.empty();
    for (unsigned i = 0; i < calls; i++) { size_t n = gen_request(s); std::string w = m.name + strf(" request %u of %u: %zu bytes; OS: ", i + 1, calls, n) + show(o); Bytes buf(n + 64, 0xC3); int fd0 = (int)o.fds.size(); (void)fd0; bool hard0 = o.hard; int r = call(c, m, o, buf.data() + 32, n, w);
      for (int j = 0; j < 32; j++) if (buf[j] != 0xC3 || buf[32 + n + j] != 0xC3) c.fail(w + ": bytes outside the buffer were written");
      if (r == 1) { if (!o.hard && !hard0 && !o.zero) c.fail(w + ": terminates although every OS result was a short read or an interruption"); c.label("terminated"); break; }
      if (o.sent.size() < n || memcmp(o.sent.data(), buf.data() + 32, n)) { size_t p = 0; while (p < n && p < o.sent.size() && o.sent[p] == buf[32 + p]) p++; c.fail(w + strf(": returned, but byte %zu is not the next byte delivered by the OS (delivered %zu bytes)", p, o.sent.size())); }
      if (o.sent.size() > n) c.fail(w + strf(": drew %zu bytes from the OS", o.sent.size())); c.label("returned " + m.branch); }
    if (used) c.nontrivial(); if (c.sampling()) c.sample(m.name + " " + show(o)); m.reset();
  });
  c.add("permanent_failure_terminates", 300000, 20000000, [](Src &s, Ctx &c) {
    Mod &m = MODS[s.draw(MODS.size() - 1)]; m.reset(); OS o; o.stream = s.draw(UINT64_MAX); gen_script(s, o, false); for (auto &e : o.script) if (e.e == FULL) e.e = SHORT, e.n = 1; for (auto &e : o.script) if (e.e == SHORT) e.n = std::min<size_t>(e.n, 3); size_t n = 4096 + s.draw(300); if (s.coin(1, 4) && m.branch != "linux" && m.branch != "netbsd") o.opens.push_back({ERRNO, 0, hard_errno(s), true}); o.script.push_back({ERRNO, 0, hard_errno(s), true});
    if (o.script.size() > 1200) c.discard(); std::string w = m.name + strf(": %zu bytes; OS: ", n) + show(o); Bytes buf(n + 64, 0xC3); int r = call(c, m, o, buf.data() + 32, n, w); if (r != 1) c.fail(w + ": returns although the OS failed permanently"); for (int j = 0; j < 32; j++) if (buf[j] != 0xC3 || buf[32 + n + j] != 0xC3) c.fail(w + ": bytes outside the buffer were written"); c.nontrivial(); c.label(m.branch); if (c.sampling()) c.sample(w); m.reset();
  });
  c.add("huge_requests", 400, 20000, [](Src &s, Ctx &c) {
    Mod &m = MODS[s.draw(MODS.size() - 1)]; m.reset(); OS o; o.big = 1; static const uint64_t e[] = {1ull << 20, 1ull << 25, 1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 33, 1ull << 36, 33554431, 0x7ffff000}; size_t n = e[s.draw(8)] + (int64_t)s.draw(10) - 5; gen_script(s, o, false); for (auto &x : o.script) if (x.e == ERRNO) x.e = EINTR_; for (auto &x : o.opens) x.e = m.branch == "windows" ? FULL : EINTR_; for (auto &x : o.script) if (x.e == SHORT) x.n = 1 + s.draw(1u << 30); o.rel_fail = 0; uint8_t *base = (uint8_t *)0x100000000000ull; std::string w = m.name + strf(" request of %zu bytes; OS: ", n) + show(o); 
    int r = call(c, m, o, base, n, w); if (o.temp) { c.label("intermediate buffer (not followed)"); return; } if (r == 1) { if (!o.zero) c.fail(w + ": terminates although the OS delivers"); return; } if (o.delivered != n) c.fail(w + strf(": returns after %zu bytes", o.delivered)); c.nontrivial(); c.label(m.branch); if (c.sampling()) c.sample(w); m.reset(); }); c.last().cpu = 60; c.last().isolate = true;
  if (!REAL.empty()) c.add("real_kernel_with_signals", 400, 4000, [](Src &s, Ctx &c) {
    Mod &m = REAL[s.draw(REAL.size() - 1)]; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, nullptr); timer_t t; struct sigevent ev; memset(&ev, 0, sizeof ev); ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR1; bool tm = s.coin(1, 2); size_t n = s.coin(1, 3) ? 1000000 + s.draw(3000000) : gen_request(s); tm = tm && !timer_create(CLOCK_MONOTONIC, &ev, &t); if (tm) { itimerspec it; it.it_value = it.it_interval = {0, 50000 + (long)s.draw(200000)}; timer_settime(t, 0, &it, nullptr); }
    Bytes a(n + 64, 0xC3), b(n + 64, 0xC3); m.f(a.data() + 32, n); m.f(b.data() + 32, n); if (tm) timer_delete(t); for (int j = 0; j < 32; j++) if (a[j] != 0xC3 || a[32 + n + j] != 0xC3) c.fail(m.name + strf(": request of %zu bytes writes outside the buffer", n));
    if (n >= 24) for (size_t i = 0; i + 24 <= n; i += 24) { if (!memcmp(&a[32 + i], &b[32 + i], 24)) c.fail(m.name + strf(": request of %zu bytes: bytes %zu.. equal in two requests", n, i)); } c.nontrivial(); if (c.sampling()) c.sample(m.name + strf(" %zu bytes", n)); }); if (!REAL.empty()) c.last().isolate = true;
}

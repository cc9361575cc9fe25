// C24: calls take nothing from the environment of the process and leave it as they found it: registers, floating-point modes, heap, descriptors, signals, files.
#include "ops.hpp"
#include "helperops.hpp"
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <locale.h>
#include <malloc.h>
#include <dirent.h>
#include <stddef.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <ucontext.h>
#include <cstdarg>
#include <atomic>
#include <cerrno>
#define VIS extern "C" __attribute__((visibility("default")))
#include <algorithm>
// ---- a gate every call passes through: sets the registers and floating-point modes a caller may have, calls, records what came back
struct Gate { uint64_t ret, target, save[6], in[6], out[6], rsp, rsp2, flags, rax; uint32_t mx_save, mx, mx2; uint16_t cw_save, cw, cw2, pad; uint8_t env[32]; alignas(32) uint8_t ymm[32]; uint64_t junk[3]; };
extern "C" { extern __attribute__((visibility("hidden"))) Gate vf_g; void vf_gate(); __attribute__((used, visibility("hidden"))) void vf_gate_check(); }
Gate vf_g;

__attribute__((used, noinline)) static void gate_holder() {
  __asm__ volatile(
    ".pushsection .text.vfgate,\"ax\",@progbits\n .globl vf_gate\n .hidden vf_gate\n .type vf_gate,@function\n .p2align 4\n vf_gate:\n"
    " movq %%r11, vf_g+%c[target](%%rip)\n popq vf_g+%c[ret](%%rip)\n"
    " movq %%rbx, vf_g+%c[save](%%rip)\n movq %%rbp, vf_g+%c[save]+8(%%rip)\n movq %%r12, vf_g+%c[save]+16(%%rip)\n movq %%r13, vf_g+%c[save]+24(%%rip)\n movq %%r14, vf_g+%c[save]+32(%%rip)\n movq %%r15, vf_g+%c[save]+40(%%rip)\n"
    " stmxcsr vf_g+%c[mxs](%%rip)\n fnstcw vf_g+%c[cws](%%rip)\n"
    " vmovdqu vf_g+%c[ymm](%%rip), %%ymm0\n"
    " vmovdqa %%ymm0,%%ymm1\n vmovdqa %%ymm0,%%ymm2\n vmovdqa %%ymm0,%%ymm3\n vmovdqa %%ymm0,%%ymm4\n vmovdqa %%ymm0,%%ymm5\n vmovdqa %%ymm0,%%ymm6\n vmovdqa %%ymm0,%%ymm7\n vmovdqa %%ymm0,%%ymm8\n vmovdqa %%ymm0,%%ymm9\n vmovdqa %%ymm0,%%ymm10\n vmovdqa %%ymm0,%%ymm11\n vmovdqa %%ymm0,%%ymm12\n vmovdqa %%ymm0,%%ymm13\n vmovdqa %%ymm0,%%ymm14\n vmovdqa %%ymm0,%%ymm15\n"
    " ldmxcsr vf_g+%c[mx](%%rip)\n fldcw vf_g+%c[cw](%%rip)\n"
    " movq vf_g+%c[in](%%rip), %%rbx\n movq vf_g+%c[in]+8(%%rip), %%rbp\n movq vf_g+%c[in]+16(%%rip), %%r12\n movq vf_g+%c[in]+24(%%rip), %%r13\n movq vf_g+%c[in]+32(%%rip), %%r14\n movq vf_g+%c[in]+40(%%rip), %%r15\n"
    " movq vf_g+%c[junk](%%rip), %%rax\n movq vf_g+%c[junk]+8(%%rip), %%r10\n movq vf_g+%c[junk]+16(%%rip), %%r11\n"
    " movq %%rsp, vf_g+%c[rsp](%%rip)\n call *vf_g+%c[target](%%rip)\n movq %%rsp, vf_g+%c[rsp2](%%rip)\n movq vf_g+%c[rsp](%%rip), %%rsp\n"
    " movq %%rax, vf_g+%c[rax](%%rip)\n pushfq\n popq vf_g+%c[flags](%%rip)\n cld\n"
    " movq %%rbx, vf_g+%c[out](%%rip)\n movq %%rbp, vf_g+%c[out]+8(%%rip)\n movq %%r12, vf_g+%c[out]+16(%%rip)\n movq %%r13, vf_g+%c[out]+24(%%rip)\n movq %%r14, vf_g+%c[out]+32(%%rip)\n movq %%r15, vf_g+%c[out]+40(%%rip)\n"
    " stmxcsr vf_g+%c[mx2](%%rip)\n fnstcw vf_g+%c[cw2](%%rip)\n fnstenv vf_g+%c[env](%%rip)\n fninit\n ldmxcsr vf_g+%c[mxs](%%rip)\n fldcw vf_g+%c[cws](%%rip)\n vzeroupper\n"
    " movq vf_g+%c[save](%%rip), %%rbx\n movq vf_g+%c[save]+8(%%rip), %%rbp\n movq vf_g+%c[save]+16(%%rip), %%r12\n movq vf_g+%c[save]+24(%%rip), %%r13\n movq vf_g+%c[save]+32(%%rip), %%r14\n movq vf_g+%c[save]+40(%%rip), %%r15\n"
    " call vf_gate_check\n movq vf_g+%c[rax](%%rip), %%rax\n jmpq *vf_g+%c[ret](%%rip)\n .size vf_gate,.-vf_gate\n .popsection\n"
    :: [target] "i"(offsetof(Gate, target)), [ret] "i"(offsetof(Gate, ret)), [save] "i"(offsetof(Gate, save)), [in] "i"(offsetof(Gate, in)), [out] "i"(offsetof(Gate, out)), [rsp] "i"(offsetof(Gate, rsp)), [rsp2] "i"(offsetof(Gate, rsp2)), [flags] "i"(offsetof(Gate, flags)), [rax] "i"(offsetof(Gate, rax)), [mxs] "i"(offsetof(Gate, mx_save)), [mx] "i"(offsetof(Gate, mx)), [mx2] "i"(offsetof(Gate, mx2)), [cws] "i"(offsetof(Gate, cw_save)), [cw] "i"(offsetof(Gate, cw)), [cw2] "i"(offsetof(Gate, cw2)), [env] "i"(offsetof(Gate, env)), [ymm] "i"(offsetof(Gate, ymm)), [junk] "i"(offsetof(Gate, junk)));
}
static std::string gbad; static unsigned gcalls; static bool gflag;
void vf_gate_check() {
  gcalls++; static const char *RN[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"}; auto bad = [&](const char *m) { if (!gflag) { gflag = true; gbad = m; } };
  for (int i = 0; i < 6; i++) if (vf_g.in[i] != vf_g.out[i]) bad((std::string("register ") + RN[i] + " is not what the caller left in it").c_str());
  if (vf_g.rsp != vf_g.rsp2) bad("the stack pointer moved"); if (vf_g.flags & 0x400) bad("the direction flag is left set"); if (vf_g.flags & 0x40000) bad("the alignment-check flag is left set");
  if ((vf_g.mx ^ vf_g.mx2) & 0xffc0) bad("the SSE control bits (MXCSR) changed"); if (vf_g.cw != vf_g.cw2) bad("the x87 control word changed"); uint16_t tag; memcpy(&tag, vf_g.env + 8, 2); if (tag != 0xffff) bad("the x87/MMX register stack is left in use");
}
// thunks: one per wrapped function
static uint8_t *tk, *tk_end;
static void *thunk(void *f) { if (!f) return f; static std::map<void *, void *> M; void *&r = M[f]; if (r) return r; if (!tk || tk + 32 > tk_end) { tk = (uint8_t *)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (tk == MAP_FAILED) { perror("mmap"); exit(2); } tk_end = tk + (1 << 16); } uint8_t *p = tk; void *g = (void *)vf_gate; p[0] = 0x49; p[1] = 0xBB; memcpy(p + 2, &f, 8); p[10] = 0x49; p[11] = 0xBA; memcpy(p + 12, &g, 8); p[20] = 0x41; p[21] = 0xFF; p[22] = 0xE2; tk += 32; return r = p; }
template <class F> static void wrap(F &f) { f = (F)thunk((void *)f); }
static KLib gated(const KLib &l) { KLib g = l; wrap(g.keypair_derand); wrap(g.keypair); wrap(g.enc_derand); wrap(g.enc); wrap(g.dec); auto *v = new std::vector<VfEntry>; if (l.table) for (auto *e = l.table; e->name; e++) v->push_back({e->name, thunk(e->p)}); v->push_back({nullptr, nullptr}); g.table = v->data(); return g; }
static std::string gen_env(Src &s) { // a caller's registers and modes
  std::string log; for (auto &x : vf_g.in) x = s.coin(1, 4) ? (s.coin(1, 2) ? 0 : UINT64_MAX) : mix64(s.draw(1u << 20)) | 1; for (auto &x : vf_g.junk) x = s.coin(1, 4) ? 0 : mix64(s.draw(1u << 20)); static const char *RC[] = {"nearest", "down", "up", "zero"}; unsigned rc = s.draw(3), xrc = s.draw(3), pc = s.weighted({3, 1, 1}); bool ftz = s.coin(1, 3), daz = s.coin(1, 3), um = s.coin(1, 3);
  vf_g.mx = rc << 13 | (ftz ? 0x8000 : 0) | (daz ? 0x40 : 0) | (um ? s.draw(63) << 7 : 0x1f80) | (um ? 0 : s.draw(63)); vf_g.cw = 0x40 | xrc << 10 | (pc == 0 ? 0x300 : pc == 1 ? 0x200 : 0) | (um ? s.draw(63) : 0x3f); Bytes y = s.coin(1, 3) ? Bytes(32, 0) : s.bytes(32, 1); if (s.coin(1, 4)) y.assign(32, 0xFF); memcpy(vf_g.ymm, y.data(), 32);
  return log = strf("SSE rounding %s%s%s, x87 rounding %s, precision %u%s", RC[rc], ftz ? ", flush to zero" : "", daz ? ", denormals are zero" : "", RC[xrc], pc, um ? ", exceptions unmasked" : "");
}
static void gate_start() { gbad.clear(); gflag = false; gcalls = 0; }
// ---- the state of the process
struct State { size_t heap, maps; std::string fds, sigs, mask, env, cwd, um, lim, tim, thr, loc, outsz; };
static size_t map_total() { static char buf[1 << 16]; int fd = open("/proc/self/maps", O_RDONLY); if (fd < 0) return 0; size_t n = 0; ssize_t r; while (n < sizeof buf - 1 && (r = read(fd, buf + n, sizeof buf - 1 - n)) > 0) n += r; close(fd); buf[n] = 0; size_t t = 0; for (char *p = buf; *p;) { char *e = strchr(p, '\n'); if (!e) break; *e = 0; unsigned long a, b; if (!strstr(p, "[stack]") && !strstr(p, "[heap]") && sscanf(p, "%lx-%lx", &a, &b) == 2) t += b - a; p = e + 1; } return t; }
static std::string fd_list() { std::string s; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) s += strf("%d:%d:%d ", i, fcntl(i, F_GETFD), fcntl(i, F_GETFL)); return s; }
static int sink = -1;
static State state(bool heap) {
  State t; t.fds = fd_list(); for (int i = 1; i < 32; i++) { struct sigaction a; if (!sigaction(i, nullptr, &a)) t.sigs += strf("%d=%p/%x ", i, (void *)a.sa_handler, a.sa_flags & ~0x04000000); } sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m); for (int i = 1; i < 65; i++) t.mask += sigismember(&m, i) == 1 ? '1' : '0'; for (char **e = environ; e && *e; e++) t.env += std::string(*e) + "\n"; char b[4096]; t.cwd = getcwd(b, sizeof b) ? b : "?"; mode_t u = umask(0); umask(u); t.um = strf("%o", u); for (int i = 0; i < RLIM_NLIMITS; i++) { rlimit r; getrlimit((__rlimit_resource_t)i, &r); t.lim += strf("%d=%lx/%lx ", i, (long)r.rlim_cur, (long)r.rlim_max); }
  struct itimerval it; for (int w = 1; w < 3; w++) { getitimer((__itimer_which_t)w, &it); t.tim += strf("%d ", it.it_value.tv_sec || it.it_value.tv_usec); } t.tim += strf("nice %d dumpable %d", getpriority(PRIO_PROCESS, 0), prctl(PR_GET_DUMPABLE)); FILE *f = fopen("/proc/self/status", "r"); if (f) { while (fgets(b, sizeof b, f)) if (!strncmp(b, "Threads", 7)) t.thr = b; fclose(f); } t.loc = setlocale(LC_ALL, nullptr); struct stat st; if (sink >= 0 && !fstat(sink, &st)) t.outsz = strf("%ld", (long)st.st_size);
  t.maps = map_total(); (void)heap; t.heap = 0; return t;
}
// the heap, counted exactly (freed blocks kept by the allocator for reuse do not count)
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
static std::atomic<long> live_bytes, live_blocks; static void *cnt_in(void *p) { if (p) { live_bytes += malloc_usable_size(p); live_blocks++; } return p; } static void cnt_out(void *p) { if (p) { live_bytes -= malloc_usable_size(p); live_blocks--; } }
VIS void *malloc(size_t n) { return cnt_in(__libc_malloc(n)); } VIS void *calloc(size_t a, size_t b) { return cnt_in(__libc_calloc(a, b)); } VIS void free(void *p) { cnt_out(p); __libc_free(p); } VIS void *realloc(void *p, size_t n) { long b = p ? malloc_usable_size(p) : 0; void *q = __libc_realloc(p, n); if (q || !n) { if (p) { live_bytes -= b; live_blocks--; } cnt_in(q); } return q; }
VIS void *memalign(size_t a, size_t n) { return cnt_in(__libc_memalign(a, n)); } VIS void *aligned_alloc(size_t a, size_t n) { return cnt_in(__libc_memalign(a, n)); } VIS int posix_memalign(void **p, size_t a, size_t n) { void *q = cnt_in(__libc_memalign(a, n)); if (!q) return ENOMEM; *p = q; return 0; } }
static long heap_now() { return live_bytes; }
static std::string diff(const State &a, const State &b) {
#define D(f, w) if (a.f != b.f) return std::string(w) + ": '" + a.f + "' became '" + b.f + "'"
  D(fds, "open descriptors"); D(sigs, "signal dispositions"); D(mask, "blocked signals"); D(env, "environment variables"); D(cwd, "working directory"); D(um, "file mode mask"); D(lim, "resource limits"); D(tim, "timers or process attributes"); D(thr, "threads"); D(loc, "locale"); D(outsz, "something was written to standard output or error: size"); 
#undef D
  return "";
}
static void own_output() { alarm(120); fflush(nullptr); sink = memfd_create("out", 0); if (sink >= 0) { dup2(sink, 1); dup2(sink, 2); } }
static std::string scratch_dir() { static const char *b = getenv("VF_SCRATCH") ? getenv("VF_SCRATCH") : "/tmp"; std::string t = std::string(b) + "/vfc24XXXXXX"; if (!mkdtemp(&t[0])) return ""; return t; }
static std::string gen_world(Src &s) { // what a process may have done to itself
  std::string log; auto say = [&](const char *m) { log += std::string(log.empty() ? "" : ", ") + m; };
  if (s.coin(1, 4)) { if (setlocale(LC_ALL, "C.UTF-8")) say("locale C.UTF-8"); }
  if (s.coin(1, 4)) { clearenv(); say("no environment"); } else if (s.coin(1, 4)) { for (auto n : {"LANG", "HOME", "PATH", "TMPDIR", "DEBUG", "KYBER_DEBUG", "OPENSSL_CONF", "OPENSSL_ia32cap", "SEED", "KYBER_SEED", "MALLOC_CHECK_", "NO_AVX2"}) setenv(n, s.coin(1, 2) ? "1" : "", 1); say("odd environment"); }
  if (s.coin(1, 4)) { std::string d = scratch_dir(); if (!d.empty() && !chdir(d.c_str())) { rmdir(d.c_str()); say("deleted working directory"); } }
  if (s.coin(1, 4)) { sigset_t m; sigfillset(&m); sigdelset(&m, SIGALRM); sigdelset(&m, SIGVTALRM); sigprocmask(SIG_SETMASK, &m, nullptr); say("all signals blocked"); } else if (s.coin(1, 4)) { for (int i : {SIGPIPE, SIGUSR1, SIGCHLD, SIGINT, SIGTERM}) signal(i, SIG_IGN); say("signals ignored"); }
  if (s.coin(1, 4)) { mallopt(M_PERTURB, 1 + s.draw(254)); say("heap filled"); }
  if (s.coin(1, 4)) { rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_FSIZE, &r); setrlimit(RLIMIT_CORE, &r); setrlimit(RLIMIT_MEMLOCK, &r); say("no file size, no locked memory"); }
  if (s.coin(1, 4)) { umask(s.draw(0777)); say("file mode mask"); }
  return log;
}
static void late_world(Src &s, std::string &log) { if (s.coin(1, 3)) { for (int i = 0; i < 3; i++) close(i); sink = -1; log += ", no standard descriptors"; } if (s.coin(1, 3)) { rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &r); log += ", no further descriptors"; } if (s.coin(1, 4)) { if (geteuid() == 0 && !setgid(65534) && !setuid(65534)) log += ", no privileges"; } }
// ---- system calls
static volatile int *shared;
static void on_sys(int, siginfo_t *i, void *) { if (!shared[1]) { shared[1] = 1 + i->si_syscall; } _exit(3); }
static bool install_filter() {
  struct sigaction a {}; a.sa_sigaction = on_sys; a.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &a, nullptr); sigset_t m; sigemptyset(&m); sigaddset(&m, SIGSYS); sigprocmask(SIG_UNBLOCK, &m, nullptr); if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  static const unsigned ok[] = {SYS_brk, SYS_mmap, SYS_munmap, SYS_mremap, SYS_madvise, SYS_mprotect, SYS_futex, SYS_rt_sigreturn, SYS_exit_group, SYS_exit, SYS_rt_sigprocmask}; std::vector<sock_filter> f; f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr))); size_t n = sizeof ok / sizeof *ok; for (size_t i = 0; i < n; i++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ok[i], (uint8_t)(n - i), 0)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); sock_fprog p{(unsigned short)f.size(), f.data()}; return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0) == 0;
}
static bool can_filter() { static int r = -1; if (r < 0) { pid_t q = fork(); if (!q) { alarm(10); _exit(install_filter() && true ? 0 : 1); } int st = 1; waitpid(q, &st, 0); r = WIFEXITED(st) && WEXITSTATUS(st) == 0; } return r; }
// ---- the operating system as it is, beneath the entropy source
static int openfail; // how many times open() is interrupted
VIS long vf_syscall(long no, ...) { va_list a; va_start(a, no); long x = va_arg(a, long), y = va_arg(a, long), z = va_arg(a, long); va_end(a); return syscall(no, x, y, z); }
VIS ssize_t vf_getrandom(void *b, size_t n, unsigned f) { return syscall(SYS_getrandom, b, n, f); } VIS int vf_getentropy(void *b, size_t n) { return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }
static int do_open(const char *p, int f) { if (openfail > 0) { openfail--; errno = EINTR; return -1; } return open(p, f); }
VIS int vf_open(const char *p, int f, ...) { return do_open(p, f); } VIS int vf_open64(const char *p, int f, ...) { return do_open(p, f); } VIS int vf_openat(int, const char *p, int f, ...) { return do_open(p, f); }
VIS ssize_t vf_read(int fd, void *b, size_t n) { return read(fd, b, n); } VIS ssize_t vf___read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); } VIS int vf_close(int fd) { return close(fd); } VIS int vf_sched_yield() { return 0; } VIS int vf_usleep(unsigned) { return 0; } VIS int vf_nanosleep(const void *, void *) { return 0; } VIS unsigned vf_sleep(unsigned) { return 0; } VIS int vf_poll(void *, unsigned long, int) { return 1; }
static volatile bool died;
VIS void vf_abort() { died = true; _exit(77); } VIS void vf_exit(int) { vf_abort(); } VIS void vf__exit(int) { vf_abort(); } VIS void vf__Exit(int) { vf_abort(); } VIS void vf___assert_fail(const char *, const char *, unsigned, const char *) { vf_abort(); } VIS int vf_raise(int) { vf_abort(); return 0; }
// ---- stack use
static size_t stack_use(std::function<void()> f) {
  static const size_t N = 1 << 20; static uint8_t *st; if (!st) { st = (uint8_t *)mmap(nullptr, N + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(st, 4096, PROT_NONE); st += 4096; } static ucontext_t a, b; static std::function<void()> *cur; memset(st, 0x9D, N); cur = &f; getcontext(&b); b.uc_stack.ss_sp = st; b.uc_stack.ss_size = N; b.uc_link = &a; makecontext(&b, (void (*)())(+[] { (*cur)(); }), 0); swapcontext(&a, &b); size_t i = 0; while (i < N && st[i] == 0x9D) i++; return N - i;
}
static std::vector<KLib> STD, GT;
struct Ent { std::string name; void (*f)(uint8_t *, size_t); }; static std::vector<Ent> EN;
static int (*rb)(uint8_t *, unsigned long long); static void (*rbi)(uint8_t *, uint8_t *, int); static void (*ecb)(uint8_t *, uint8_t *, uint8_t *);
static void run(Op &o, int fill) { std::fill(o.o1.begin(), o.o1.end(), fill); std::fill(o.o2.begin(), o.o2.end(), fill); exec(o, *o.l, o.o1, o.o2); }
static bool differs(const Op &o) { return o.o1 != o.x1 || o.o2 != o.x2; }
void define_check(Check &c, int) {
  c.id = "C24";
  c.rule = "Generated operations called from generated surroundings. Registers: every call passes a gate that puts drawn values into all callee-saved and scratch registers and drawn rounding, flush-to-zero and exception-mask bits into MXCSR and the x87 control word, and inspects all of it on return; results must be those of the same call in a fresh environment. Process: fresh processes with drawn locale, environment, limits, signals, descriptors, working directory, heap fill; after a warm-up, repeated calls must leave heap, mappings, descriptors, signals, limits, output and the rest as they were, and the deterministic operations make no system call beyond memory management (a system-call filter watches). Non-trivial: a result was compared and the state inspected.";
  c.assumptions = {"Status flags of MXCSR and x87 may change; control bits may not.", "Memory obtained and kept once (a cache) is allowed; what grows with every call is not.", "The stack limit of 120 KiB stands for the smallest default thread stack in wide use (128 KiB, musl)."};
  gate_holder(); STD = load_all("std"); for (auto &l : STD) GT.push_back(gated(l)); std::string d = envs("VF_ENTROPY", "");
  for (const char *impl : {"ref", "avx2"}) for (const char *b : {"linux", "netbsd", "generic"}) { std::string f = d + "/" + impl + "_" + b + ".so"; if (access(f.c_str(), R_OK)) continue; Ent e; e.name = std::string(impl) + " randombytes (" + b + ")"; void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) h = dlopen(f.c_str(), RTLD_LAZY | RTLD_LOCAL); if (h && (*(void **)&e.f = dlsym(h, "randombytes"))) EN.push_back(e); }
  { std::string f = std::string(envs("VF_KAT", "")) + "/rng.so"; if (!access(f.c_str(), R_OK)) { void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (h) { *(void **)&rb = dlsym(h, "randombytes"); *(void **)&rbi = dlsym(h, "randombytes_init"); *(void **)&ecb = dlsym(h, "AES256_ECB"); } } }
  c.add("registers_and_modes", 120000, 8000000, [](Src &s, Ctx &c) {
    World W; std::string log; OpGen G(s, W, GT, STD); unsigned n = 1 + s.draw(2); std::vector<Op> ops; for (unsigned i = 0; i < n; i++) ops.push_back(G.gen(log)); std::string env; unsigned calls = 0;
    for (auto &o : ops) { env = gen_env(s); gate_start(); run(o, 0x5A); calls += gcalls; if (gflag) c.fail("after" + log + ": " + gbad + " (" + env + ")"); if (differs(o)) c.fail(o.l->name() + "." + ON[o.kind] + " returned something else than in a fresh environment (" + env + ");" + log); }
    c.check(calls >= n, "harness: gate not passed"); c.nontrivial(); c.labels["calls through the gate"] += calls; if (c.sampling()) c.sample(env + ":" + log);
  });
  c.add("registers_and_modes_of_helpers", 200000, 20000000, [](Src &s, Ctx &c) {
    const KLib &l = STD[s.draw(STD.size() - 1)]; Case k; void *f = nullptr; auto act = gen_helper(s, l, k, true, f); if (!act) c.discard(); auto go = [&](void *fn, std::vector<Bytes> &R) { std::vector<std::unique_ptr<uint8_t, void (*)(void *)>> mem; std::vector<uint8_t *> p; for (auto &b : k.b) { void *q = nullptr; if (posix_memalign(&q, 64, b.n + 64)) abort(); mem.emplace_back((uint8_t *)q, free); memset(q, 0, b.n + 64); if (b.n) memcpy(q, b.a.data(), b.n); p.push_back((uint8_t *)q); } act(fn, p.data()); for (size_t i = 0; i < k.b.size(); i++) R.emplace_back(p[i], p[i] + std::min(k.b[i].n, k.b[i].cmp)); };
    std::vector<Bytes> a, b; go(f, a); std::string env = gen_env(s); gate_start(); go(thunk(f), b); if (gflag) c.fail(k.name + ": " + gbad + " (" + env + ")"); for (size_t i = 0; i < a.size(); i++) c.eq(b[i], a[i], k.name + " in another environment (" + env + "), buffer " + std::to_string(i)); c.check(gcalls == 1, "harness: gate not passed"); c.nontrivial(); c.label(k.name.substr(k.name.find('.') + 1)); if (c.sampling()) c.sample(k.name + ": " + env);
  });
  c.add("process_state", 12000, 600000, [](Src &s, Ctx &c) {
    own_output(); std::string log, w = gen_world(s); World W; OpGen G(s, W, STD, STD); unsigned n = 1 + s.draw(2); std::vector<Op> ops; for (unsigned i = 0; i < n; i++) ops.push_back(G.gen(log)); unsigned reps = 3 + s.draw(5); late_world(s, w); int en = s.coin(1, 2) ? 0 : 1 + s.draw(132); log += " (" + w + ")"; std::string bad;
    for (int i = 0; i < 3; i++) { State t = state(true); (void)t; for (auto &o : ops) { errno = en; run(o, i); if (differs(o) && bad.empty()) bad = o.l->name() + "." + ON[o.kind] + " returned something else than in an ordinary process;" + log; } } if (!bad.empty()) c.fail(bad);
    size_t mp = map_total(); State a = state(true); long h0 = heap_now(); for (unsigned r = 0; r < reps; r++) for (auto &o : ops) { errno = en; run(o, 0x40 + r); } long h1 = heap_now(); State b = state(true); size_t mp2 = map_total(); std::string d = diff(a, b); if (!d.empty()) c.fail("after repeated calls of" + log + ": " + d); if (h1 != h0) c.fail(strf("%u repetitions of", reps) + log + strf(" changed the heap in use by %ld bytes", (long)(h1 - h0))); if (mp != mp2) c.fail(strf("%u repetitions of", reps) + log + strf(" changed the mapped memory by %ld bytes", (long)(mp2 - mp))); for (auto &o : ops) if (differs(o)) c.fail(o.l->name() + "." + ON[o.kind] + " returned something else on repetition;" + log);
    c.nontrivial(); c.labels["repetitions"] += reps; if (c.sampling()) c.sample(log);
  }); c.last().isolate = true; c.last().cpu = 60;
  if (can_filter()) { c.add("system_calls", 8000, 400000, [](Src &s, Ctx &c) {
    World W; std::string log; OpGen G(s, W, STD, STD); unsigned n = 1 + s.draw(2); std::vector<Op> ops; for (unsigned i = 0; i < n; i++) ops.push_back(G.gen(log)); void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); c.check(m != MAP_FAILED, "harness: mmap"); shared = (volatile int *)m; fflush(nullptr); pid_t q = fork(); c.check(q >= 0, "harness: fork");
    if (!q) { alarm(60); if (!install_filter()) _exit(4); for (auto &o : ops) { run(o, 1); if (differs(o)) _exit(5); } _exit(0); }
    int st = 0; waitpid(q, &st, 0); int nr = shared[1]; munmap(m, 4096); if (nr) c.fail(strf("system call %d made by one of", nr - 1) + log); if (WIFEXITED(st) && WEXITSTATUS(st) == 4) c.discard(); if (st) c.fail((WIFEXITED(st) && WEXITSTATUS(st) == 5 ? "another result" : strf("ended with status 0x%x", st)) + " where no system calls are possible;" + log); c.nontrivial(); if (c.sampling()) c.sample(log);
  }); c.last().isolate = true; c.last().cpu = 60; } else c.notes["system_calls"] = "no system-call filter available here";
  c.add("stack", 8000, 400000, [](Src &s, Ctx &c) {
    World W; std::string log; OpGen G(s, W, STD, STD); Op o = G.gen(log); size_t u = stack_use([&] { run(o, 0x21); }); if (differs(o)) c.fail("another result on a small stack:" + log); if (u > 120 * 1024) c.fail(strf("%zu bytes of stack used by", u) + log);
    typedef void (*SH)(uint8_t *, size_t, const uint8_t *, size_t); auto f = o.l->fn<SH>(s.coin(1, 2) ? "shake128" : "shake256"); if (f && s.coin(1, 8)) { size_t big = 20000 + s.draw(200000); static Bytes in(220000, 7), out(220000); bool wide = s.coin(1, 2); size_t a = stack_use([&] { f(out.data(), 64, in.data(), 500); }), b = stack_use([&] { f(out.data(), wide ? big : 64, in.data(), wide ? 500 : big); }); if (b > a + 4096) c.fail(o.l->name() + strf(": stack use grows with the length of a hash call: %zu for 500 bytes, %zu for %zu", a, b, big)); c.label("long hash calls"); }
    c.nontrivial(); c.label(strf("%s: up to %zu KiB", o.l->name().c_str(), (u + 8191) / 8192 * 8)); if (c.sampling()) c.sample(log + strf(": %zu bytes", u));
  });
  if (!EN.empty()) c.add("entropy_source", 4000, 150000, [](Src &s, Ctx &c) {
    own_output(); Ent &e = EN[s.draw(EN.size() - 1)]; std::string w = gen_world(s), log = e.name + " (" + w; unsigned nc = s.draw(7); for (int i = 0; i < 3; i++) if (nc >> i & 1) { close(i); log += strf(", descriptor %d closed", i); } if (nc) { close(sink); sink = -1; } openfail = s.draw(3); size_t n = 16 + s.draw(300), big = s.coin(1, 8) ? 70000 : 0; log += strf(", open interrupted %d times), %zu bytes", openfail, n); std::vector<Bytes> B; for (int i = 0; i < 12; i++) B.emplace_back(n + 32, 0xC7); Bytes L(big, 0);
    int fds0 = 0, fds1 = 0, fds2 = 0; auto cnt = [&] { int k = 0; for (int i = 0; i < 256; i++) k += fcntl(i, F_GETFD) >= 0; return k; }; fds0 = cnt(); auto draw = [&](int i) { errno = 22; e.f(B[i].data() + 16, n); }; draw(0); fds1 = cnt(); draw(1); if (big) e.f(L.data(), big); State a = state(true); size_t mp = map_total(); long h0 = heap_now(); for (int i = 2; i < 12; i++) draw(i); long h1 = heap_now(); fds2 = cnt(); size_t mp2 = map_total(); State b = state(true);
    if (fds1 > fds0 + 1 || fds2 > fds1) c.fail(log + strf(": %d descriptors before, %d after the first call, %d after further calls", fds0, fds1, fds2)); std::string d = diff(a, b); if (!d.empty()) c.fail(log + ": " + d); if (h0 != h1) c.fail(log + strf(": heap in use changed by %ld", (long)(h1 - h0))); if (mp != mp2) c.fail(log + ": mapped memory changed");
    for (int i = 0; i < 12; i++) { for (int j = 0; j < 16; j++) c.check(B[i][j] == 0xC7 && B[i][n + 16 + j] == 0xC7, log + ": wrote outside the buffer"); c.check(!std::all_of(B[i].begin() + 16, B[i].begin() + 32, [](uint8_t x) { return x == 0xC7; }) && !std::all_of(B[i].end() - 32, B[i].end() - 16, [](uint8_t x) { return x == 0xC7; }), log + ": the buffer was not filled"); for (int j = 0; j < i; j++) c.check(memcmp(&B[i][16], &B[j][16], 16), log + ": two draws are equal"); } if (big) c.check(!std::all_of(L.end() - 16, L.end(), [](uint8_t x) { return !x; }), log + ": a long buffer was not filled");
    c.nontrivial(); c.label(e.name); if (c.sampling()) c.sample(log);
  }), c.last().isolate = true, c.last().cpu = 60;
  if (rb && rbi) c.add("test_generator", 800, 80000, [](Src &s, Ctx &c) {
    own_output(); std::string w = gen_world(s); Bytes e = s.bytes(48, 1), p = s.bytes(48, 1), out(5000), key = s.bytes(32, 1), blk(16), pt(16); unsigned n = 1 + s.draw(4); std::vector<size_t> q; for (unsigned i = 0; i < n; i++) q.push_back(s.draw(400)); bool init = s.coin(1, 2), pers = s.coin(1, 2); auto go = [&] { if (init) rbi(e.data(), pers ? p.data() : nullptr, 256); for (auto k : q) rb(out.data(), k); if (ecb) ecb(key.data(), pt.data(), blk.data()); }; rbi(e.data(), nullptr, 256); for (int i = 0; i < 4; i++) go(); unsigned reps = 5 + s.draw(10);
    State a = state(true); size_t mp = map_total(); long h0 = heap_now(); for (unsigned i = 0; i < reps; i++) go(); size_t mp2 = 0; long h1 = heap_now(); mp2 = map_total(); State b = state(true); std::string d = diff(a, b), log = strf("%u repetitions of %s%u requests (", reps, init ? "initialisation and " : "", n) + w + ")"; if (!d.empty()) c.fail(log + ": " + d); if (h1 != h0) c.fail(log + strf(": heap in use changed by %ld bytes", (long)(h1 - h0))); if (mp != mp2) c.fail(log + ": mapped memory changed"); c.nontrivial(); if (c.sampling()) c.sample(log);
  }), c.last().isolate = true, c.last().cpu = 60;
}

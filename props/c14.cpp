// C14: no branch, address or division operand depends on secrets.
// VF_CT=taint: under memcheck, all secrets of a case are marked undefined; any jump or address computed from them is reported.
// VF_CT=step: two runs with different secrets and the same public data are single-stepped; instruction sequences and division operands must agree.
#include "kemgen.hpp"
#include "hashgen.hpp"
#include "helperops.hpp"
#include <valgrind/memcheck.h>
#include <ucontext.h>
#include <csignal>
#include <fstream>
#include <unistd.h>
#include <array>
#include <sys/mman.h>
#include <map>
static const uint8_t *rb_src; static size_t rb_left;
extern "C" __attribute__((visibility("default"))) void randombytes(uint8_t *out, size_t n) { size_t m = n < rb_left ? n : rb_left; if (m) memcpy(out, rb_src, m); if (n > m) memset(out + m, 0xA5, n - m); rb_src += m; rb_left -= m; }
static std::vector<KLib> LB; static bool taint;
static Bytes RHO; static unsigned gcalls; static bool fixrho;
static void g_hook(uint8_t *h, const uint8_t *, size_t) { if (fixrho && gcalls++ == 0) { memcpy(h, RHO.data(), 32); VALGRIND_MAKE_MEM_DEFINED(h, 32); } }
// ---- single stepping, and breakpoints at division instructions
struct Step { uint64_t ip, a, d; };
static std::map<uint64_t, uint8_t> DIV; static bool divmode; static uint64_t pending;
static void patch(bool on) { for (auto &d : DIV) *(volatile uint8_t *)d.first = on ? 0xCC : d.second; }
static void find_divs(const KLib &l) {
  Dl_info i; void *any = (void *)l.dec; if (!dladdr(any, &i)) return; FILE *f = popen(("objdump -d --no-show-raw-insn " + std::string(i.dli_fname) + " | grep -E '[[:space:]]i?div[bwlq]?[[:space:]]'").c_str(), "r"); char ln[512]; if (!f) return;
  while (fgets(ln, sizeof ln, f)) { uint64_t a = strtoull(ln, nullptr, 16) + (uint64_t)i.dli_fbase; uint64_t pg = a & ~4095ull; if (mprotect((void *)pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) continue; DIV[a] = *(uint8_t *)a; } pclose(f); }
static std::vector<Step> *cur; static size_t steps; static const size_t MAXS = 12u << 20; static uint8_t altst[65536];
static void on_trap(int, siginfo_t *, void *u) {
  auto *r = ((ucontext_t *)u)->uc_mcontext.gregs;
  if (divmode) { if (pending) { *(volatile uint8_t *)pending = 0xCC; pending = 0; r[REG_EFL] &= ~0x100; return; } auto it = DIV.find((uint64_t)r[REG_RIP] - 1); if (it == DIV.end()) abort(); pending = it->first; *(volatile uint8_t *)pending = it->second; r[REG_RIP] = pending; r[REG_EFL] |= 0x100; }
  if (!cur || steps >= MAXS) return; Step s{(uint64_t)r[REG_RIP], 0, 0}; const uint8_t *p = (const uint8_t *)s.ip; bool w66 = false, rexw = false;
  while (*p == 0x66 || *p == 0xF2 || *p == 0xF3 || *p == 0x2E || *p == 0x3E) { if (*p == 0x66) w66 = true; p++; } if ((*p & 0xF0) == 0x40) { rexw = *p & 8; p++; }
  if ((*p == 0xF6 || *p == 0xF7) && ((p[1] >> 3) & 7) >= 6) { uint64_t m = *p == 0xF6 ? 0xFFFF : rexw ? ~0ull : w66 ? 0xFFFF : 0xFFFFFFFF; s.a = 1 + ((uint64_t)r[REG_RAX] & m); s.d = *p == 0xF6 ? 0 : (uint64_t)r[REG_RDX] & m; if (p[1] >> 6 == 3 && !(p > (const uint8_t *)s.ip && (p[-1] & 0xF1) == 0x41)) { static const int G[] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI}; s.d ^= ((uint64_t)r[G[p[1] & 7]] & m) << 1; } }
  (*cur)[steps++] = s;
}
template <class F> __attribute__((noinline)) static size_t trace(std::vector<Step> &t, F f) {
  if (t.size() < MAXS) t.resize(MAXS); cur = &t; steps = 0;
  __asm__ volatile("lea -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc");
  f();
  __asm__ volatile("lea -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc");
  cur = nullptr; return steps;
}
template <class F> __attribute__((noinline)) static size_t divtrace(std::vector<Step> &t, F f) { if (t.size() < MAXS) t.resize(MAXS); cur = &t; steps = 0; divmode = true; patch(true); f(); patch(false); divmode = false; cur = nullptr; return steps; }
static bool divonly;
static std::string where(uint64_t ip) { Dl_info i; if (dladdr((void *)ip, &i) && i.dli_sname) return strf("%s+%#zx", i.dli_sname, (size_t)(ip - (uint64_t)i.dli_saddr)); if (i.dli_fname) return strf("%s+%#zx", strrchr(i.dli_fname, '/') + 1, (size_t)(ip - (uint64_t)i.dli_fbase)); return "?"; }
// ---- a case: named buffers, some secret; an action over them
static uint8_t *ARENA; static const size_t AR = 1 << 18;
static void run_case(Ctx &c, Case &k, const std::function<void(uint8_t **)> &f) {
  std::vector<uint8_t *> p; size_t o = 0; for (auto &x : k.b) { p.push_back(ARENA + o); o += (x.n + 127) / 64 * 64; } if (o > AR) abort();
  auto fill = [&](bool second) { for (size_t i = 0; i < k.b.size(); i++) memcpy(p[i], (second ? k.b[i].b : k.b[i].a).data(), k.b[i].n); gcalls = 0; fixrho = k.keygen; };
  if (taint) {
    fill(false); for (size_t i = 0; i < k.b.size(); i++) if (k.b[i].secret) VALGRIND_MAKE_MEM_UNDEFINED(p[i], k.b[i].n);
    unsigned e0 = VALGRIND_COUNT_ERRORS; f(p.data()); unsigned e = VALGRIND_COUNT_ERRORS - e0; fixrho = false; VALGRIND_MAKE_MEM_DEFINED(ARENA, o);
    if (k.keygen && !gcalls) c.discard();
    if (e) { std::string w; std::ifstream l(std::string(envs("VF_CTLOG", "/dev/null")) + "." + std::to_string(getpid())); std::string ln; while (std::getline(l, ln)) { size_t q = ln.find("== "); if (q != std::string::npos && (ln.find("onditional jump") != std::string::npos || ln.find("Use of uninit") != std::string::npos || ln.find(" at 0x") != std::string::npos)) { w += " " + ln.substr(q + 3); if (ln.find(" at 0x") != std::string::npos) break; } }
      c.fail(k.name + strf(": %u jump(s) or address(es) depend on secret data;", e) + w); }
  } else {
    static std::vector<Step> t1, t2; std::function<void()> g = [&] { f(p.data()); }; fill(false); g(); fill(false); auto tr = [&](std::vector<Step> &t) { return divonly ? divtrace(t, g) : trace(t, g); }; size_t n1 = tr(t1); fill(true); size_t n2 = tr(t2); fixrho = false; if (k.keygen && !gcalls) c.discard();
    if (n1 < 3 && !divonly) c.discard();
    size_t n = std::min(n1, n2); for (size_t i = 0; i < n; i++) {
      if (t1[i].ip != t2[i].ip) c.fail(k.name + strf(": two secrets execute different %s after %zu common ones, at ", divonly ? "divisions" : "instructions", i) + where(i ? t1[i - 1].ip : t1[i].ip));
      if (t1[i].a != t2[i].a || t1[i].d != t2[i].d) c.fail(k.name + ": a division at " + where(t1[i].ip) + " has operands that depend on the secret"); }
    if (n1 != n2) c.fail(k.name + ": two secrets execute different numbers of instructions"); c.evals++; c.labels[divonly ? "divisions compared" : "instructions compared"] += n1; if (divonly && !n1 && !n2) return;
  }
  c.nontrivial(); c.label(k.name.substr(k.name.find('.') + 1)); if (c.sampling()) c.sample(k.name);
}
void define_check(Check &c, int) {
  c.id = "C14"; taint = !strcmp(envs("VF_CT", "step"), "taint");
  c.rule = taint ? "Taint: a generated call under memcheck with every secret byte (coins, message, secret vector, rejection value; contents of helper arguments) marked undefined; a conditional jump or an address that depends on one is a failure, for that call and every secret of it at once." : "Pairs: two generated secrets with equal public data (for decapsulation the same ciphertext, accepted under one and rejected under the other secret key) are single-stepped; the sequences of instruction addresses and the operands of integer divisions must be equal.";
  c.assumptions = {"Public: public key, its hash, ciphertext, the matrix seed in key generation (made equal through a hook on SHA3-512), all lengths.", "Binaries as produced by gcc 13 with the project's -O3 and with -Os; micro-architectural effects and instructions with data-dependent timing other than division are not modelled."};
  LB = load_all(); ARENA = (uint8_t *)mmap(nullptr, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (auto &l : LB) { void **h = (void **)dlsym(l.h, "vf_g_hook"); if (h) *h = (void *)g_hook; }
  if (!taint) { for (auto &l : LB) find_divs(l); stack_t st{}; st.ss_sp = altst; st.ss_size = sizeof altst; sigaltstack(&st, nullptr); struct sigaction a{}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &a, nullptr); }
  auto Q = [&](uint64_t t, uint64_t p) { return taint ? t : p; };
  auto kem = [](Src &s, Ctx &c, const KLib &l, int op) {
    static const char *N[] = {"keypair_derand", "enc_derand", "dec", "keypair", "enc"}; Case k; k.name = l.name() + "." + N[op];
    if ((op == 0 || op == 3) && !dlsym(l.h, "vf_g_hook")) c.discard(); RHO = s.prng(32);
    if (op == 0 || op == 3) { k.keygen = true; size_t a = k.sec(gen_coins(s, 64), gen_coins(s, 64)), p = k.out(l.pk), q = k.out(l.sk); bool r = op == 3; run_case(c, k, [&l, a, p, q, r](uint8_t **b) { if (!r) { l.keypair_derand(b[p], b[q], b[a]); return; } rb_src = b[a]; rb_left = 64; l.keypair(b[p], b[q]); }); return; }
    Bytes pk, sk; { Key y = lib_keypair(l, gen_coins(s, 64)); pk = y.pk; sk = y.sk; } if (s.coin(1, 4)) { Bytes t = gen_poly_bytes(s, l.k, 3329); memcpy(pk.data(), t.data(), t.size()); }
    if (op == 1 || op == 4) { bool r = op == 4; size_t P = k.pub(pk), m = k.sec(gen_coins(s, 32), gen_coins(s, 32)), ct = k.out(l.ct), ss = k.out(32); run_case(c, k, [&l, P, m, ct, ss, r](uint8_t **b) { if (!r) { l.enc_derand(b[ct], b[ss], b[P], b[m]); return; } rb_src = b[m]; rb_left = 32; l.enc(b[ct], b[ss], b[P]); }); return; }
    Bytes ct(l.ct), ss(32); if (s.coin(2, 3)) { l.enc_derand(ct.data(), ss.data(), pk.data(), gen_coins(s, 32).data()); if (s.coin(1, 3)) tamper(s, l.k, ct); } else ct = s.bytes(l.ct, 2);
    Bytes s1(sk.begin(), sk.begin() + 384 * l.k), s2 = gen_poly_bytes(s, l.k, s.coin(1, 4) ? 4096 : 3329), mid(sk.begin() + 384 * l.k, sk.end() - 32), z1(sk.end() - 32, sk.end()), z2 = s.bytes(32, 1); memcpy(mid.data(), pk.data(), l.pk); Bytes hp = model::sha3(256, pk); memcpy(&mid[l.pk], hp.data(), 32); if (s.coin(1, 8)) s2 = s1;
    // the secret key is one buffer: its public middle stays defined
    Bytes A = s1, B = s2; for (auto *x : {&A, &B}) { x->insert(x->end(), mid.begin(), mid.end()); auto &z = x == &A ? z1 : z2; x->insert(x->end(), z.begin(), z.end()); }
    size_t S = k.sec(A, B), C = k.pub(ct), o = k.out(32); size_t mo = s1.size(), mn = mid.size(); run_case(c, k, [&l, S, C, o, mo, mn](uint8_t **b) { if (taint) VALGRIND_MAKE_MEM_DEFINED(b[S] + mo, mn); l.dec(b[o], b[C], b[S]); }); };
  if (taint) c.add("kem_operations", 8000, 200000, [kem](Src &s, Ctx &c) { kem(s, c, pick_lib(s, LB), s.weighted({3, 4, 6, 1, 1})); });
  else { // every library, the three operations first
    c.add("kem_operations", LB.size() * 3, LB.size() * 200, [kem](Src &s, Ctx &c) { divonly = false; const KLib &l = pick_lib(s, LB); kem(s, c, l, s.weighted({3, 4, 6, 1, 1})); }); c.last().cpu = 120; }
  auto helpers = [](Src &s, Ctx &c) { const KLib &l = pick_lib(s, LB); Case k; void *f = nullptr; auto act = gen_helper(s, l, k, taint, f); if (!act) c.discard(); run_case(c, k, [&](uint8_t **p) { act(f, p); }); };
  c.add("helpers", Q(20000, 900), Q(400000, 20000), [helpers](Src &s, Ctx &c) { divonly = false; helpers(s, c); }); c.last().cpu = 60;
  if (!taint) { c.add("division_operands_operations", 1500, 60000, [kem](Src &s, Ctx &c) { divonly = true; kem(s, c, pick_lib(s, LB), s.weighted({3, 4, 6, 1, 1})); divonly = false; });
    c.add("division_operands_helpers", 40000, 1000000, [helpers](Src &s, Ctx &c) { divonly = true; helpers(s, c); divonly = false; }); }
  c.add("comparison_and_moves", Q(20000, 3000), Q(400000, 100000), [](Src &s, Ctx &c) { divonly = false;
    const KLib &l = pick_lib(s, LB); size_t n = s.coin(1, 2) ? s.draw(100) : gen_len(s, 32, taint ? 1800 : 600); if (n > 4000) n = 4000; int op = s.draw(1); auto *fv = l.fn<int (*)(const uint8_t *, const uint8_t *, size_t)>("verify"); auto *fc = l.fn<void (*)(uint8_t *, const uint8_t *, size_t, uint8_t)>("cmov"); Case k; k.name = l.name() + (op ? ".cmov" : ".verify"); if (!(op ? (void *)fc : (void *)fv)) c.discard();
    Bytes a = s.bytes(n, 1), b = s.coin(1, 2) ? a : s.bytes(n, 2); if (n && s.coin(1, 2)) { b = a; b[s.draw(n - 1)] ^= 1 + s.draw(254); } Bytes a2 = s.bytes(n, 1), b2 = s.coin(1, 2) ? a2 : s.bytes(n, 1); if (s.coin(1, 3)) { a2 = a; b2 = a; } size_t x = k.sec(a, a2), y = k.sec(b, b2);
    if (op) { Bytes f1(1, s.draw(1)), f2(1, 1 - f1[0]); size_t z = k.sec(f1, f2); run_case(c, k, [=](uint8_t **p) { fc(p[x], p[y], n, *p[z]); }); } else run_case(c, k, [=](uint8_t **p) { volatile int r = fv(p[x], p[y], n); (void)r; });
  }); c.last().cpu = 60;
  c.add("hashes", Q(8000, 300), Q(100000, 20000), [](Src &s, Ctx &c) { divonly = false;
    const KLib &l = pick_lib(s, LB); static const char *N[] = {"shake128", "shake256", "sha3_256", "sha3_512", "shake128x4", "shake256x4", "incremental"}; int op = s.draw(6); size_t cap = taint ? 600 : 200, n = gen_len(s, 136, cap) % (cap + 1), o = gen_len(s, 136, cap) % (cap + 1); Case k; k.name = l.name() + "." + N[op]; auto x = [&] { return k.sec(s.bytes(n, 1), s.bytes(n, 1)); };
    if (op < 6) { void *f = l.find(N[op]); if (!f) c.discard(); if (op < 4) { size_t a = k.out(std::max<size_t>(o, 64)), b = x(); run_case(c, k, [=](uint8_t **p) { if (op < 2) ((void (*)(uint8_t *, size_t, const uint8_t *, size_t))f)(p[a], o, p[b], n); else ((void (*)(uint8_t *, const uint8_t *, size_t))f)(p[a], p[b], n); }); } else { size_t a = k.out(o), b = k.out(o), d = k.out(o), e = k.out(o); size_t i = x(), j = x(), u = x(), w = x(); run_case(c, k, [=](uint8_t **p) { ((void (*)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t))f)(p[a], p[b], p[d], p[e], o, p[i], p[j], p[u], p[w], n); }); } return; }
    auto in = l.fn<void (*)(void *)>("shake256_init"), fi = l.fn<void (*)(void *)>("shake256_finalize"); auto ab = l.fn<void (*)(void *, const uint8_t *, size_t)>("shake256_absorb"); auto sq = l.fn<void (*)(uint8_t *, size_t, void *)>("shake256_squeeze"); if (!in || !fi || !ab || !sq) c.discard();
    size_t st = k.out(1024, 32), a = k.out(o), b = x(), m1 = n ? s.draw(n) : 0, o1 = o ? s.draw(o) : 0; run_case(c, k, [=](uint8_t **p) { in(p[st]); ab(p[st], p[b], m1); ab(p[st], p[b] + m1, n - m1); fi(p[st]); sq(p[a], o1, p[st]); sq(p[a] + o1, o - o1, p[st]); });
  }); c.last().cpu = 60;
}

// C22: the portable implementation on other platforms: 32-bit words, big-endian byte order, strict alignment.
#include "kemgen.hpp"
#include "hashgen.hpp"
#include "mips.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>
#include <fstream>
#include <memory>
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
// A machine with 1 MiB of memory whose arena starts at ARENA; addresses are the machine's own.
struct Machine { std::string name, tag; int k; virtual ~Machine() {} virtual bool find(const std::string &, uint32_t &) = 0; virtual uint8_t *at(uint32_t a) = 0; virtual uint32_t arena() = 0; virtual bool call(uint32_t f, const std::vector<uint32_t> &a, uint32_t &r, uint32_t dirt, std::string &err) = 0; virtual uint8_t *entropy() = 0; virtual uint32_t entropy_used() = 0; virtual void fresh() = 0; virtual size_t arena_size() = 0; };
struct MipsM : Machine {
  Mips m; bool find(const std::string &n, uint32_t &a) override { auto i = m.sym.find(n); if (i == m.sym.end()) return false; a = i->second; return true; } uint8_t *at(uint32_t a) override { return &m.mem[a]; } uint32_t arena() override { return Mips::ARENA; } size_t arena_size() override { return Mips::SIZE - Mips::ARENA; }
  bool call(uint32_t f, const std::vector<uint32_t> &a, uint32_t &r, uint32_t dirt, std::string &err) override { for (uint32_t x = Mips::STACK_HI - 65536; x < Mips::STACK_HI; x += 4) m.p32(x, dirt); bool ok = m.call(f, a, r, dirt & 1023); err = m.err; return ok; }
  uint8_t *entropy() override { return &m.mem[m.sym["vf_entropy"]]; } uint32_t entropy_used() override { uint32_t a = m.sym["vf_entropy_used"], v = m.g32(a); m.p32(a, 0); return v; } void fresh() override { m.reset(); }
};
// 32-bit x86: the image runs as a process of its own, with 1 MiB shared
struct X86M : Machine {
  std::string path; std::map<std::string, uint32_t> sym; uint8_t *sh = nullptr; int fd = -1, cmd = -1, ans = -1; pid_t pid = 0;
  bool load(const std::string &p) {
    path = p; FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; Bytes b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); auto w = [&](size_t o) { uint32_t v; memcpy(&v, &b[o], 4); return v; }; auto h = [&](size_t o) { uint16_t v; memcpy(&v, &b[o], 2); return v; };
    uint32_t s0 = w(32); for (int i = 0; i < h(48); i++) { size_t s = s0 + 40 * i; if (w(s + 4) != 2) continue; size_t st = s0 + 40 * w(s + 24); const char *names = (const char *)&b[w(st + 16)]; for (uint32_t o = 0; o < w(s + 20); o += 16) { size_t y = w(s + 16) + o; if (h(y + 14)) sym[names + w(y)] = w(y + 4); } } return true; }
  void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(cmd); close(ans); munmap(sh, 1 << 20); close(fd); } pid = 0; }
  pid_t owner = 0;
  void start() {
    if (pid > 0 && owner == getpid()) return; pid = 0; owner = getpid(); fd = memfd_create("vf32", 0); if (ftruncate(fd, 1 << 20)) return; sh = (uint8_t *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return; pid_t par = getpid(); pid = fork();
    if (!pid) { prctl_die(par); int f = fcntl(fd, F_DUPFD, 20), r = fcntl(a[0], F_DUPFD, 20), w = fcntl(b[1], F_DUPFD, 20); dup2(f, 3); dup2(r, 4); dup2(w, 5); for (int i = 6; i < 64; i++) close(i); execl(path.c_str(), path.c_str(), (char *)nullptr); _exit(9); }
    close(a[0]); close(b[1]); cmd = a[1]; ans = b[0]; }
  static void prctl_die(pid_t) ;
  bool find(const std::string &n, uint32_t &a) override { auto i = sym.find(n); if (i == sym.end()) return false; a = i->second; return true; } uint8_t *at(uint32_t a) override { start(); return sh + (a - 0x50000000u); } uint32_t arena() override { return 0x50001000u; } size_t arena_size() override { return (1 << 20) - 0x1000; }
  bool call(uint32_t f, const std::vector<uint32_t> &a, uint32_t &r, uint32_t dirt, std::string &err) override { start(); uint32_t c[9] = {f, 0, 0, 0, 0, 0, 0, dirt, 0}; for (size_t i = 0; i < a.size() && i < 6; i++) c[1 + i] = a[i]; memcpy(sh, c, sizeof c); char x = 1; signal(SIGPIPE, SIG_IGN); ssize_t z; if (write(cmd, &x, 1) != 1 || ((z = read(ans, &x, 1)) != 1)) { int st = 0; waitpid(pid, &st, 0); err = WIFSIGNALED(st) ? strf("the 32-bit process ended with signal %d", WTERMSIG(st)) : strf("the 32-bit process ended with status %d", WEXITSTATUS(st)); close(cmd); close(ans); pid = 0; return false; } memcpy(&r, sh + 32, 4); return true; }
  uint8_t *entropy() override { return nullptr; } uint32_t entropy_used() override { return 0; } void fresh() override {}
};
void X86M::prctl_die(pid_t) { prctl(PR_SET_PDEATHSIG, SIGKILL); }
static std::vector<std::unique_ptr<Machine>> MS;
// buffers in the machine's arena, separated by canaries, at drawn byte offsets
struct Buf { uint32_t a; size_t n; };
struct Arena {
  Machine &m; Src &s; uint32_t top; uint8_t fill; std::vector<Buf> bufs; Arena(Machine &m, Src &s) : m(m), s(s), top(m.arena() + 64), fill(s.draw(255)) { memset(m.at(m.arena()), 0xC7, std::min<size_t>(m.arena_size(), 65536)); }
  Buf get(size_t n, unsigned align = 1) { top += align == 1 ? s.draw(7) : 0; top = (top + align - 1) / align * align; Buf b{top, n}; memset(m.at(top), fill, n); top += n + 16; bufs.push_back(b); return b; }
  Buf put(const Bytes &x) { Buf b = get(x.size()); memcpy(m.at(b.a), x.data(), x.size()); return b; }
  Bytes read(Buf b) { return Bytes(m.at(b.a), m.at(b.a) + b.n); }
  void intact(Ctx &c, const std::string &w) { uint32_t p = m.arena(); for (auto &b : bufs) { for (; p < b.a; p++) if (*m.at(p) != 0xC7) c.fail(w + ": memory outside the buffers was written"); p = b.a + b.n; } for (uint32_t e = p + 64; p < e; p++) if (*m.at(p) != 0xC7) c.fail(w + ": memory after the buffers was written"); }
};
static uint32_t run(Ctx &c, Machine &m, uint32_t f, std::vector<uint32_t> a, const std::string &w, uint32_t dirt) { uint32_t r = 0; std::string e; if (!m.call(f, a, r, dirt, e)) c.fail(w + ": " + e); return r; }
static Machine *pick(Src &s, const std::string &suffix, uint32_t &f, bool kem) { std::vector<std::pair<Machine *, uint32_t>> v; for (auto &m : MS) { uint32_t a; std::string n = kem ? strf("pqcrystals_kyber%d_ref_", 256 * m->k) + suffix : ""; if (kem) { if (m->find(n, a)) v.push_back({m.get(), a}); } else for (auto p : {"pqcrystals_kyber_fips202_ref_", ""}) { n = p[0] ? p + suffix : strf("pqcrystals_kyber%d_ref_", 256 * m->k) + suffix; if (m->find(n, a)) { v.push_back({m.get(), a}); break; } } } if (v.empty()) return nullptr; auto x = v[s.draw(v.size() - 1)]; f = x.second; return x.first; }
static const KLib *lib(int k) { for (auto &l : LB) if (l.k == k && l.impl == "ref") return &l; return nullptr; }
void define_check(Check &c, int) {
  c.id = "C22"; c.rule = "The portable sources compiled for 32-bit x86 (gcc, clang; a process of its own) and for a big-endian 32-bit machine that traps on misaligned accesses (MIPS32, run by an interpreter), buffers at odd addresses, stack and registers holding garbage; compared with the 64-bit library and the reference model. Non-trivial: every call that returned.";
  c.assumptions = {"A stand-in string.h/stdlib.h, as no C library is installed for these targets.", "MIPS32r2 soft-float as compiled by clang; the interpreter is part of the trusted base."};
  LB = load_all("std", "ref"); std::string d = envs("VF_PORT", ""), l; std::ifstream in(d + "/images.txt");
  while (std::getline(in, l)) { size_t p = l.find(' '), q = l.find(' ', p + 1); std::string file = l.substr(0, p), arch = l.substr(p + 1, q - p - 1); int k = atoi(l.c_str() + q); std::unique_ptr<Machine> m; if (arch == "mips") { auto x = std::make_unique<MipsM>(); if (!x->m.load(d + "/" + file)) { c.notes["image not loaded"] = file; continue; } m = std::move(x); } else { auto x = std::make_unique<X86M>(); if (!x->load(d + "/" + file)) continue; m = std::move(x); } m->k = k; m->tag = arch; m->name = "kyber" + std::to_string(256 * k) + " " + file; MS.push_back(std::move(m)); }
  c.notes["images"] = std::to_string(MS.size());
  c.add("kem_operations", 9000, 900000, [](Src &s, Ctx &c) {
    static const char *N[] = {"keypair_derand", "enc_derand", "dec"}; unsigned op = s.weighted({3, 4, 5}); uint32_t f; Machine *m = pick(s, N[op], f, true); uint32_t dirt = s.draw(0xffffffffu);
    const KLib *l; if (!m) { l = lib(2 + s.draw(2)); } else l = lib(m->k); if (!l) c.discard(); Bytes co = gen_coins(s, 64), pk(l->pk), sk(l->sk), ct(l->ct), ss(32), e1, e2; std::string w = (m ? m->name : "no other platform, " + l->name()) + "." + N[op];
    if (op == 0) { e1.resize(l->pk); e2.resize(l->sk); l->keypair_derand(e1.data(), e2.data(), co.data()); if (!m) { model::keypair(l->k, co.data(), pk.data(), sk.data()); c.eq(e1, pk, w); return; } Arena A(*m, s); Buf a = A.get(l->pk), b = A.get(l->sk), x = A.put(co); uint32_t r = run(c, *m, f, {a.a, b.a, x.a}, w, dirt); c.check(r == 0, w + ": status not 0"); c.eq(A.read(a), e1, w + ": public key"); c.eq(A.read(b), e2, w + ": secret key"); c.eq(A.read(x), co, w + ": input written"); A.intact(c, w); }
    else {
      bool wild = s.coin(1, 5); Key k = lib_keypair(*l, co); if (wild) { k.pk = s.bytes(l->pk, 2); if (s.coin(1, 2)) k.sk = s.bytes(l->sk, 2); } Bytes msg = gen_coins(s, 32); l->enc_derand(ct.data(), ss.data(), k.pk.data(), msg.data()); if (!m) { Bytes x(32); l->dec(x.data(), ct.data(), k.sk.data()); return; } Arena A(*m, s);
      if (op == 1) { Buf a = A.get(l->ct), b = A.get(32), x = A.put(k.pk), y = A.put(msg); uint32_t r = run(c, *m, f, {a.a, b.a, x.a, y.a}, w, dirt); c.check(r == 0, w + ": status not 0"); c.eq(A.read(a), ct, w + ": ciphertext"); c.eq(A.read(b), ss, w + ": shared secret"); c.eq(A.read(x), k.pk, w + ": input written"); }
      else { if (s.coin(1, 2)) tamper(s, l->k, ct); l->dec(ss.data(), ct.data(), k.sk.data()); Buf a = A.get(32), x = A.put(ct), y = A.put(k.sk); uint32_t r = run(c, *m, f, {a.a, x.a, y.a}, w, dirt); c.check(r == 0, w + ": status not 0"); c.eq(A.read(a), ss, w + ": secret"); c.eq(A.read(y), k.sk, w + ": input written"); }
      A.intact(c, w); }
    c.label(m->tag); c.nontrivial(); if (c.sampling()) c.sample(w); });
  c.add("randomized_operations", 600, 60000, [](Src &s, Ctx &c) { // entropy taken from the image's own source: machines that expose it
    uint32_t f; bool kp = s.coin(1, 2); Machine *m = pick(s, kp ? "keypair" : "enc", f, true); if (!m || !m->entropy()) c.discard(); const KLib *l = lib(m->k); if (!l) c.discard(); m->entropy_used(); Bytes co = gen_coins(s, 64); memcpy(m->entropy(), co.data(), 64); Arena A(*m, s); std::string w = m->name + (kp ? ".keypair" : ".enc"); uint32_t dirt = s.draw(0xffffffffu);
    if (kp) { Buf a = A.get(l->pk), b = A.get(l->sk); run(c, *m, f, {a.a, b.a}, w, dirt); Key k = lib_keypair(*l, co); c.eq(A.read(a), k.pk, w + ": public key"); c.eq(A.read(b), k.sk, w + ": secret key"); c.check(m->entropy_used() == 64, w + ": not 64 bytes drawn"); }
    else { Key k = lib_keypair(*l, gen_coins(s, 64)); Bytes ct(l->ct), ss(32); l->enc_derand(ct.data(), ss.data(), k.pk.data(), co.data()); Buf a = A.get(l->ct), b = A.get(32), x = A.put(k.pk); run(c, *m, f, {a.a, b.a, x.a}, w, dirt); c.eq(A.read(a), ct, w + ": ciphertext"); c.eq(A.read(b), ss, w + ": secret"); c.check(m->entropy_used() == 32, w + ": not 32 bytes drawn"); }
    A.intact(c, w); c.nontrivial(); if (c.sampling()) c.sample(w); });
  c.add("hashes", 60000, 6000000, [](Src &s, Ctx &c) {
    static const char *N[] = {"shake128", "shake256", "sha3_256", "sha3_512"}; unsigned op = s.draw(3); uint32_t f; Machine *m = pick(s, N[op], f, false); if (!m) c.discard(); size_t il = gen_len(s, op == 0 ? 168 : op == 3 ? 72 : 136, 1000), ol = op == 2 ? 32 : op == 3 ? 64 : gen_len(s, op ? 136 : 168, 1000); Bytes in = s.bytes(il, 1), e = op < 2 ? model::shake(op ? 256 : 128, in, ol) : model::sha3(op == 2 ? 256 : 512, in); Arena A(*m, s); Buf o = A.get(ol), x = A.put(in); std::string w = m->name + "." + N[op] + strf(" in %zu out %zu", il, ol);
    if (op < 2) run(c, *m, f, {o.a, (uint32_t)ol, x.a, (uint32_t)il}, w, s.draw(0xffffffffu)); else run(c, *m, f, {o.a, x.a, (uint32_t)il}, w, s.draw(0xffffffffu)); c.eq(A.read(o), e, w); A.intact(c, w); c.label(m->tag); c.nontrivial(); if (c.sampling()) c.sample(w); });
  c.add("incremental_hashes", 20000, 2000000, [](Src &s, Ctx &c) {
    bool b256 = s.coin(1, 2); std::string p = b256 ? "shake256_" : "shake128_"; uint32_t f; Machine *m = pick(s, p + "init", f, false); if (!m) c.discard(); std::map<std::string, uint32_t> F; for (auto n : {"init", "absorb", "finalize", "squeeze", "absorb_once", "squeezeblocks"}) { uint32_t a; if (m->find("pqcrystals_kyber_fips202_ref_" + p + n, a)) F[n] = a; } for (auto n : {"init", "absorb", "finalize", "squeeze"}) if (!F.count(n)) c.discard();
    size_t rate = b256 ? 136 : 168, il = gen_len(s, rate, 700), ol = gen_len(s, rate, 700); Bytes in = s.bytes(il, 1), e = model::shake(b256 ? 256 : 128, in, ol + 8 * rate), out; Arena A(*m, s); Buf st = A.get(512, 16), x = A.put(in); std::string w = m->name + "." + p; uint32_t dirt = s.draw(0xffffffffu);
    if (F.count("absorb_once") && s.coin(1, 3)) { w += "absorb_once"; run(c, *m, F["absorb_once"], {st.a, x.a, (uint32_t)il}, w, dirt); if (F.count("squeezeblocks") && s.coin(1, 2)) { unsigned nb = s.draw(3); Buf o = A.get(nb * rate); w += strf(" squeezeblocks %u", nb); run(c, *m, F["squeezeblocks"], {o.a, nb, st.a}, w, dirt); Bytes g = A.read(o); out.insert(out.end(), g.begin(), g.end()); } }
    else { run(c, *m, F["init"], {st.a}, w, dirt); size_t p = 0; w += "absorb"; while (p < il) { size_t n = s.coin(1, 3) ? il - p : s.draw(std::min<size_t>(il - p, 200)); w += strf(" %zu", n); run(c, *m, F["absorb"], {st.a, x.a + (uint32_t)p, (uint32_t)n}, w, dirt); p += n; } run(c, *m, F["finalize"], {st.a}, w, dirt); }
    w += " squeeze"; unsigned calls = 0; while (out.size() < ol && calls++ < 8) { size_t n = s.coin(1, 3) ? ol - out.size() : s.draw(ol - out.size()); Buf o = A.get(n); w += strf(" %zu", n); run(c, *m, F["squeeze"], {o.a, (uint32_t)n, st.a}, w, dirt); Bytes g = A.read(o); out.insert(out.end(), g.begin(), g.end()); }
    c.eq(out, Bytes(e.begin(), e.begin() + out.size()), w); A.intact(c, w); c.nontrivial(); if (c.sampling()) c.sample(w); });
  c.add("comparison_and_moves", 60000, 6000000, [](Src &s, Ctx &c) {
    unsigned op = s.draw(2); static const char *N[] = {"verify", "cmov", "cmov_int16"}; uint32_t f; Machine *m = pick(s, N[op], f, true); if (!m) c.discard(); size_t n = gen_len(s, 32, 400); Bytes a = s.bytes(n, 1), b = s.coin(1, 2) ? a : s.bytes(n, 1); if (n && s.coin(1, 2)) b[s.draw(n - 1)] ^= 1u << s.draw(7); Arena A(*m, s); uint32_t dirt = s.draw(0xffffffffu); std::string w = m->name + "." + N[op] + strf(" %zu", n);
    if (op == 0) { Buf x = A.put(a), y = A.put(b); uint32_t r = run(c, *m, f, {x.a, y.a, (uint32_t)n}, w, dirt); c.check((r != 0) == (a != b), w + strf(": returned %u", r)); if (a != b) c.nontrivial(); }
    else if (op == 1) { unsigned k = s.draw(1); Buf x = A.put(a), y = A.put(b); run(c, *m, f, {x.a, y.a, (uint32_t)n, k}, w, dirt); c.eq(A.read(x), k ? b : a, w); if (a != b) c.nontrivial(); }
    else { bool be = m->tag == "mips"; uint16_t v = s.draw(65535), o = s.draw(65535); unsigned k = s.draw(1); Buf x = A.get(2, 2); uint8_t *p = m->at(x.a); auto put = [&](uint16_t q) { p[be ? 0 : 1] = q >> 8; p[be ? 1 : 0] = q; }; put(o); run(c, *m, f, {x.a, (uint32_t)(int32_t)(int16_t)v, k}, w, dirt); uint16_t g = p[be ? 0 : 1] << 8 | p[be ? 1 : 0]; c.check(g == (k ? v : o), w + strf(": %04x from %04x, %04x, condition %u", g, o, v, k)); c.nontrivial(); }
    A.intact(c, w); if (c.sampling()) c.sample(w); });
}

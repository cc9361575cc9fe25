// C18: KAT request and response files are complete, well-formed and correct, and the status tells so; the text helpers are exact.
#include "kemgen.hpp"
#include <setjmp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <stdarg.h>
#define VIS extern "C" __attribute__((visibility("default")))
typedef int (*fm_t)(FILE *, const char *); typedef int (*rh_t)(FILE *, unsigned char *, int, char *); typedef void (*fb_t)(FILE *, char *, unsigned char *, unsigned long long);
struct Kat { int k; void *h; int (*main_)(); int (*rb)(uint8_t *, unsigned long long); fm_t fm; rh_t rh; fb_t fb; };
static std::vector<Kat> KS; static std::string KD;
// ---- the world of one run of the generator
struct World {
  std::map<std::string, std::string> files; int opens = 0, fail_open = -1; std::string unopened; int64_t wlimit[2] = {-1, -1}; int64_t rlimit = -1; bool fault = false; int bufmode = 0; size_t bufsz = 0; // write limit: bytes accepted by .req/.rsp; read limit on .req
  int calls[3] = {0, 0, 0}, failcall[3] = {-1, -1, -1}, failret = 1, badss = -1; unsigned badbyte = 0, badbit = 0; uint64_t seed = 0; unsigned draws[2] = {64, 32}; int style = 0; int (*rb)(uint8_t *, unsigned long long) = nullptr; size_t pk, sk, ct; std::vector<Bytes> ss; int aborted = 0; size_t rchunk = 4096;
};
static World *W; static jmp_buf J;
struct Ck { World *w; std::string name; bool wr; size_t pos = 0; };
static ssize_t ck_write(void *c, const char *b, size_t n) { Ck *k = (Ck *)c; World *w = k->w; if (w != W) return n; int i = k->name.find(".rsp") != std::string::npos; std::string &f = w->files[k->name]; if (w->wlimit[i] >= 0 && (int64_t)(f.size() + n) > w->wlimit[i]) { w->fault = true; size_t room = w->wlimit[i] > (int64_t)f.size() ? w->wlimit[i] - f.size() : 0; f.append(b, room); errno = ENOSPC; return 0; } f.append(b, n); return n; }
static ssize_t ck_read(void *c, char *b, size_t n) { Ck *k = (Ck *)c; World *w = k->w; if (w != W) return 0; std::string &f = w->files[k->name]; n = std::min(n, w->rchunk); if (w->rlimit >= 0 && (int64_t)k->pos + (int64_t)n > w->rlimit) { if (k->pos >= (size_t)w->rlimit) { w->fault = true; errno = EIO; return -1; } n = w->rlimit - k->pos; } n = std::min(n, f.size() - std::min(f.size(), k->pos)); memcpy(b, f.data() + k->pos, n); k->pos += n; return n; }
VIS FILE *vf_fopen(const char *name, const char *mode) { int i = W->opens++; if (i == W->fail_open) { W->fault = true; errno = EACCES; return nullptr; } bool wr = mode[0] == 'w'; if (wr) W->files[name].clear(); else if (!W->files.count(name)) { errno = ENOENT; return nullptr; } Ck *k = new Ck{W, name, wr}; FILE *f = fopencookie(k, mode, cookie_io_functions_t{ck_read, ck_write, nullptr, nullptr}); if (W->bufmode == 1) setvbuf(f, nullptr, _IONBF, 0); else if (W->bufmode == 2) setvbuf(f, (char *)malloc(W->bufsz), _IOFBF, W->bufsz); return f; }
VIS FILE *vf_fopen64(const char *n, const char *m) { return vf_fopen(n, m); } VIS int vf_printf(const char *, ...) { return 1; } VIS int vf_puts(const char *) { return 1; } VIS int vf_putchar(int x) { return x; } VIS void vf_perror(const char *) {} VIS void vf_exit(int s) { longjmp(J, 1000 + (s & 255)); } VIS void vf_abort() { longjmp(J, 2000); } VIS int vf_remove(const char *n) { return W->files.erase(n) ? 0 : -1; } VIS int vf_unlink(const char *n) { return vf_remove(n); } VIS int vf_rename(const char *a, const char *b) { if (!W->files.count(a)) return -1; W->files[b] = W->files[a]; W->files.erase(a); return 0; }
static void fill(uint8_t *o, size_t n, uint64_t h, int style) { Rng r(h); for (size_t i = 0; i < n; i++) { uint64_t x = r.next(); o[i] = style == 0 ? x : style == 1 ? 0 : style == 2 ? 0xff : style == 3 ? ((x & 7) ? 0 : x >> 8) : (uint8_t)(x % 3 ? x >> 8 & 15 : x >> 8 & 0xf0); } }
static void fake_keypair(World *w, const Bytes &rnd, uint8_t *pk, uint8_t *sk) { uint64_t h = hash_bytes(rnd.data(), rnd.size(), w->seed + 1); fill(pk, w->pk, h, w->style); fill(sk, w->sk, h + 1, w->style); memcpy(sk, &h, 8); }
static void fake_enc(World *w, const Bytes &rnd, const uint8_t *pk, uint8_t *ct, uint8_t *ss) { uint64_t h = hash_bytes(rnd.data(), rnd.size(), hash_bytes(pk, w->pk, w->seed + 2)); fill(ct, w->ct, h, w->style); fill(ss, 32, h + 1, w->style); }
VIS int vf_kem_keypair(uint8_t *pk, uint8_t *sk) { int i = W->calls[0]++; Bytes r(W->draws[0] + 1); W->rb(r.data(), W->draws[0]); r.resize(W->draws[0]); fake_keypair(W, r, pk, sk); if (i == W->failcall[0]) { W->fault = true; return W->failret; } return 0; }
VIS int vf_kem_enc(uint8_t *ct, uint8_t *ss, const uint8_t *pk) { int i = W->calls[1]++; Bytes r(W->draws[1] + 1); W->rb(r.data(), W->draws[1]); r.resize(W->draws[1]); fake_enc(W, r, pk, ct, ss); W->ss.push_back(Bytes(ss, ss + 32)); if (i == W->failcall[1]) { W->fault = true; return W->failret; } return 0; }
VIS int vf_kem_dec(uint8_t *ss, const uint8_t *, const uint8_t *) { int i = W->calls[2]++; if (W->ss.empty()) { memset(ss, 0, 32); return 0; } memcpy(ss, W->ss.back().data(), 32); if (i == W->badss) { ss[W->badbyte] ^= 1u << W->badbit; W->fault = true; } if (i == W->failcall[2]) { W->fault = true; return W->failret; } return 0; }
static std::string HEX(const uint8_t *p, size_t n) { static const char *D = "0123456789ABCDEF"; std::string s; s.reserve(2 * n); for (size_t i = 0; i < n; i++) { s += D[p[i] >> 4]; s += D[p[i] & 15]; } return s; }
struct Seeds { std::vector<Bytes> v; Seeds() { model::CtrDrbg d; uint8_t e[48]; for (int i = 0; i < 48; i++) e[i] = i; d.init(e, nullptr); for (int i = 0; i < 100; i++) { Bytes b(48); d.generate(b.data(), 48); v.push_back(b); } } };
static const Seeds &seeds() { static Seeds s; return s; }
static std::string want_req() { std::string r; for (int i = 0; i < 100; i++) r += strf("count = %d\nseed = ", i) + HEX(seeds().v[i].data(), 48) + "\npk =\nsk =\nct =\nss =\n\n"; return r; }
static const char *alg(int k) { return k == 2 ? "Kyber512" : k == 3 ? "Kyber768" : "Kyber1024"; }
static std::string record(int i, const uint8_t *pk, size_t npk, const uint8_t *sk, size_t nsk, const uint8_t *ct, size_t nct, const uint8_t *ss) { return strf("count = %d\nseed = ", i) + HEX(seeds().v[i].data(), 48) + "\npk = " + HEX(pk, npk) + "\nsk = " + HEX(sk, nsk) + "\nct = " + HEX(ct, nct) + "\nss = " + HEX(ss, 32) + "\n\n"; }
static void same_text(Ctx &c, const std::string &g, const std::string &e, const std::string &w) { if (g == e) return; size_t i = 0; while (i < g.size() && i < e.size() && g[i] == e[i]) i++; size_t ln = std::count(e.begin(), e.begin() + std::min(i, e.size()), '\n') + 1; size_t b = g.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1; c.fail(w + strf(": %zu bytes (expected %zu), first difference at byte %zu, line %zu: \"%s\"", g.size(), e.size(), i, ln, g.substr(std::max(b, i > 30 ? i - 30 : 0), 60).c_str())); }
static size_t SK[] = {0, 0, 1632, 2400, 3168}, PK[] = {0, 0, 800, 1184, 1568}, CT[] = {0, 0, 768, 1088, 1568};
static int run_main(const Kat &K, World &w) { W = &w; w.rb = K.rb; w.pk = PK[K.k]; w.sk = SK[K.k]; w.ct = CT[K.k]; int j = setjmp(J); int r; if (!j) r = K.main_() & 255; else r = j >= 2000 ? 256 : j - 1000; return r; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
// a stream over a string delivering it in pieces of drawn sizes
struct Rd { std::string s; size_t pos = 0; size_t chunk = 4096; };
static ssize_t rd_read(void *c, char *b, size_t n) { Rd *r = (Rd *)c; n = std::min({n, r->chunk, r->s.size() - r->pos}); memcpy(b, r->s.data() + r->pos, n); r->pos += n; return n; }
static FILE *rd_open(Src &s, Rd &r) { static const size_t C[] = {4096, 1, 2, 7, 48, 49, 50, 64}; r.chunk = C[s.draw(7)]; FILE *f = fopencookie(&r, "r", cookie_io_functions_t{rd_read, nullptr, nullptr, nullptr}); if (s.coin(1, 4)) setvbuf(f, nullptr, _IONBF, 0); return f; }
static std::string gen_text(Src &s, size_t n, const std::string &alphabet) { std::string r(n, 0); uint64_t sd = s.draw(UINT64_MAX); Rng g(sd); for (auto &x : r) x = alphabet.empty() ? (char)g.next() : alphabet[g.next() % alphabet.size()]; return r; }
static std::string gen_marker(Src &s, size_t maxlen) { static const char *M[] = {"count = ", "seed = ", "pk = ", "sk = ", "ct = ", "ss = ", "aab", "abab", "aaaa", "aabaaab"}; switch (s.weighted({3, 3, 2})) { case 0: return M[s.draw(9)]; case 1: return gen_text(s, 1 + s.draw(maxlen - 1), "ab"); default: { size_t n = s.coin(1, 3) ? maxlen - s.draw(2) : 1 + s.draw(maxlen - 1); std::string r = gen_text(s, n, ""); for (auto &x : r) if (!x) x = 1; return r; } } }
void define_check(Check &c, int tier) {
  c.id = "C18"; KD = envs("VF_KAT", ""); for (int k : {2, 3, 4}) { Kat K{k}; K.h = dlopen((KD + strf("/kat%d.so", k)).c_str(), RTLD_NOW | RTLD_LOCAL); if (!K.h) { fprintf(stderr, "%s\n", dlerror()); exit(2); } *(void **)&K.main_ = dlsym(K.h, "vf_kat_main"); *(void **)&K.rb = dlsym(K.h, "randombytes"); *(void **)&K.fm = dlsym(K.h, "FindMarker"); *(void **)&K.rh = dlsym(K.h, "ReadHex"); *(void **)&K.fb = dlsym(K.h, "fprintBstr"); if (!K.main_ || !K.rb) { fprintf(stderr, "KAT generator has no main\n"); exit(2); } KS.push_back(K); }
  seeds();
  c.rule = "Whole runs of the generator with a generated KEM (contents, draws), generated I/O faults (opens, writes, reads) and KEM faults, against independently composed text; real runs of the shipped programs recomputed record by record with the model; text helpers on generated streams. Non-trivial: every such case.";
  c.assumptions = {"The KEM inside the generator is replaced by a generated one in the fault-injection runs; the complete runs use the real one."};
  c.add_enum("complete_real_runs", 3, [](Src &s, Ctx &c) {
    const Kat &K = KS[s.draw(UINT64_MAX) % 3]; char d[] = "/tmp/vfkatXXXXXX"; if (!mkdtemp(d)) throw Failure{"mkdtemp"}; std::string dir = d; int rc = system(("cd " + dir + " && timeout 200 " + KD + strf("/gen%d", K.k) + " >/dev/null 2>&1").c_str()); std::string rq = slurp(dir + strf("/PQCkemKAT_%zu.req", SK[K.k])), rs = slurp(dir + strf("/PQCkemKAT_%zu.rsp", SK[K.k])); int q = system(("/bin/rm -rf " + dir).c_str()); (void)q;
    c.check(rc == 0, strf("generator for %s ends with status %d", alg(K.k), WEXITSTATUS(rc))); same_text(c, rq, want_req(), "request file"); std::string e = strf("# %s\n\n", alg(K.k)); const model::Params &P = model::params(K.k);
    for (int i = 0; i < 100; i++) { model::CtrDrbg g; g.init(seeds().v[i].data(), nullptr); Bytes co(64), m(32); g.generate(co.data(), 64); g.generate(m.data(), 32); Bytes pk(P.pk), sk(P.sk), ct(P.ct), ss(32); model::keypair(K.k, co.data(), pk.data(), sk.data()); model::enc(K.k, pk.data(), m.data(), ct.data(), ss.data()); e += record(i, pk.data(), pk.size(), sk.data(), sk.size(), ct.data(), ct.size(), ss.data()); c.nontrivial_id(K.k * 1000 + i); }
    c.evals += 99; same_text(c, rs, e, strf("response file of %s", alg(K.k))); if (c.sampling()) c.sample(strf("%s, 100 records", alg(K.k))); });
  c.last().cpu = 300;
  c.add_enum("real_runs_without_space", 9, [](Src &s, Ctx &c) { // the shipped program writing to a full device, or without a file it needs
    uint64_t i = s.draw(UINT64_MAX); const Kat &K = KS[i % 3]; int which = i / 3; char d[] = "/tmp/vfkatXXXXXX"; if (!mkdtemp(d)) throw Failure{"mkdtemp"}; std::string dir = d; std::string f = dir + strf("/PQCkemKAT_%zu.%s", SK[K.k], which == 0 ? "rsp" : "req"); int q = 0; std::string pre; if (which == 0) { if (access("/dev/full", W_OK)) { rmdir(d); c.discard(); } q = symlink("/dev/full", f.c_str()); } else if (which == 1) pre = "trap '' XFSZ; ulimit -f 8; "; else q = mkdir(f.c_str(), 0700); int rc = system(("cd " + dir + " && " + pre + "timeout 100 " + KD + strf("/gen%d", K.k) + " >/dev/null 2>&1").c_str()); q = system(("/bin/rm -rf " + dir).c_str()); (void)q; static const char *N[] = {"response file on a full device", "request file reaches the size limit", "request file cannot be created"}; c.check(rc != 0, strf("%s: generator reports success although the %s", alg(K.k), N[which])); c.nontrivial(); c.sample(N[which]); });
  c.last().cpu = 300;
  c.add("generated_runs", 2400, 200000, [](Src &s, Ctx &c) {
    const Kat &K = KS[s.draw(2)]; World w; w.seed = s.draw(UINT64_MAX); w.style = s.draw(4); if (s.coin(1, 3)) { w.draws[0] = s.draw(100); w.draws[1] = s.draw(100); } w.bufmode = s.draw(2); static const size_t B[] = {4096, 1, 2, 64, 1000, 65536}; w.bufsz = B[s.draw(5)]; static const size_t RC[] = {4096, 1, 3, 64, 500}; w.rchunk = RC[s.draw(4)];
    size_t rqs = want_req().size(), rss = 12 + 100 * (23 + 96 + 2 * (PK[K.k] + SK[K.k] + CT[K.k] + 32) + 30); std::string log = strf("%s, ", alg(K.k));
    switch (s.weighted({4, 2, 3, 3, 3, 2, 2, 2, 3})) { case 0: log += "no fault"; break; case 1: w.fail_open = s.draw(3); log += strf("open #%d fails", w.fail_open); break; case 2: w.wlimit[0] = s.coin(1, 3) ? rqs - 1 - s.draw(3) : s.draw(rqs + 10); log += strf("request file limited to %lld bytes", (long long)w.wlimit[0]); break; case 3: w.wlimit[1] = s.coin(1, 3) ? rss - s.draw(300) : s.draw(rss + 400); log += strf("response file limited to %lld bytes", (long long)w.wlimit[1]); break; case 4: w.rlimit = s.coin(1, 3) ? rqs - s.draw(3) : s.draw(rqs); log += strf("reading fails after %lld bytes", (long long)w.rlimit); break;
      case 5: case 6: case 7: { int i = s.draw(2); w.failcall[i] = s.coin(1, 3) ? 99 : s.draw(102); static const int R[] = {1, -1, 2, 256, -256, INT32_MIN, 65536}; w.failret = R[s.draw(6)]; log += strf("%s call %d returns %d", i == 0 ? "keypair" : i == 1 ? "enc" : "dec", w.failcall[i], w.failret); break; } default: w.badss = s.coin(1, 3) ? 99 : s.draw(101); w.badbyte = s.coin(1, 3) ? 31 : s.draw(31); w.badbit = s.draw(7); log += strf("dec call %d returns another secret (byte %u bit %u)", w.badss, w.badbyte, w.badbit); }
    int r = run_main(K, w); std::string rq = w.files[strf("PQCkemKAT_%zu.req", SK[K.k])], rs = w.files[strf("PQCkemKAT_%zu.rsp", SK[K.k])]; W = nullptr; log += strf(": status %d", r);
    if (w.fault) { c.check(r != 0, log + ", success reported although the run failed"); c.label("fault delivered"); c.nontrivial(); if (c.sampling()) c.sample(log); return; }
    c.check(r == 0, log + ", failure reported although nothing failed"); same_text(c, rq, want_req(), log + ", request file"); std::string e = strf("# %s\n\n", alg(K.k)); Bytes pk(w.pk), sk(w.sk), ct(w.ct), ss(32);
    for (int i = 0; i < 100; i++) { model::CtrDrbg g; g.init(seeds().v[i].data(), nullptr); Bytes a(w.draws[0]), b(w.draws[1]); uint8_t z[1]; g.generate(a.empty() ? z : a.data(), a.size()); g.generate(b.empty() ? z : b.data(), b.size()); fake_keypair(&w, a, pk.data(), sk.data()); fake_enc(&w, b, pk.data(), ct.data(), ss.data()); e += record(i, pk.data(), w.pk, sk.data(), w.sk, ct.data(), w.ct, ss.data()); } same_text(c, rs, e, log + ", response file"); c.label("success"); c.nontrivial(); if (c.sampling()) c.sample(log); });
  std::vector<const Kat *> *H = new std::vector<const Kat *>; for (auto &k : KS) if (k.fm && k.rh && k.fb) H->push_back(&k);
  if (H->empty()) { c.notes["text helpers"] = "FindMarker/ReadHex/fprintBstr not exported"; return; }
  c.add("find_marker", 600000, 30000000, [H](Src &s, Ctx &c) {
    const Kat &K = *(*H)[s.draw(H->size() - 1)]; std::string mk = gen_marker(s, 49), t; unsigned n = s.draw(6); for (unsigned i = 0; i < n; i++) switch (s.draw(6)) { case 0: t += mk; break; case 1: t += mk.substr(0, s.draw(mk.size())); break; case 2: t += mk.substr(s.draw(mk.size() - 1)); break; case 3: t += gen_text(s, s.draw(60), "ab"); break; case 4: t += gen_text(s, s.draw(60), ""); break; case 5: t += std::string(s.draw(3), s.coin(1, 2) ? '\0' : '\xff'); break; default: { std::string x = mk; x[s.draw(x.size() - 1)] ^= 1 + s.draw(254); t += x; } }
    size_t p = t.find(mk); Rd r{t}; FILE *f = rd_open(s, r); int g = K.fm(f, mk.c_str()); std::string rest; int ch; while ((ch = fgetc(f)) != EOF) rest += (char)ch; fclose(f); std::string log = "marker " + hex((const uint8_t *)mk.data(), mk.size()) + " in " + hex((const uint8_t *)t.data(), t.size());
    if (p == std::string::npos) { c.check(g == 0, log + ": found although absent"); c.label("absent"); } else { c.check(g != 0, log + ": not found"); c.check(rest == t.substr(p + mk.size()), log + strf(": stream left %zu bytes before its end instead of %zu", rest.size(), t.size() - p - mk.size())); c.label("present"); }
    if (t.size() >= mk.size()) c.nontrivial(); if (c.sampling()) c.sample(log); });
  c.add("hex_round_trip", 300000, 20000000, [H](Src &s, Ctx &c) {
    const Kat &K = *(*H)[s.draw(H->size() - 1)]; size_t L = s.weighted({6, 1}) ? s.draw(1600) : s.draw(80); Bytes a = s.bytes(L, 2); std::string S = s.coin(1, 2) ? std::vector<std::string>{"seed = ", "pk = ", "sk = ", "ct = ", "ss = "}[s.draw(4)] : gen_marker(s, 49); 
    for (auto &x : S) if (x == '\n') x = ' '; char *mem = nullptr; size_t ms = 0; FILE *o = open_memstream(&mem, &ms); Bytes a0 = a; a.push_back(0); K.fb(o, (char *)S.c_str(), a.data(), L); fclose(o); std::string t(mem, ms); free(mem); a.pop_back(); c.eq(a, a0, "bytes changed by fprintBstr");
    same_text(c, t, S + (L ? HEX(a.data(), L) : "00") + "\n", "fprintBstr"); bool low = s.coin(1, 4); if (low) for (size_t i = S.size(); i < t.size(); i++) t[i] = tolower(t[i]); std::string pre = s.coin(1, 2) ? gen_text(s, s.draw(120), s.coin(1, 2) ? "" : "sedpkct =0123ABC\n") : "", post = s.coin(1, 2) ? gen_text(s, s.draw(120), "0123456789ABCDEFx\n") : ""; std::string full = pre + t + post; if (full.find(S) != pre.size()) c.discard();
    Rd r{full}; FILE *f = rd_open(s, r); Bytes b(L + 9, 0xC7); int g = K.rh(f, b.data() + 4, (int)L, (char *)S.c_str()); fclose(f); c.check(g != 0, "ReadHex fails on text written by fprintBstr"); for (size_t i = 0; i < 4; i++) c.check(b[i] == 0xC7 && (L ? b[L + 4 + i] == 0xC7 : 1), "ReadHex writes outside its buffer"); if (L) c.eq(Bytes(b.begin() + 4, b.begin() + 4 + L), a, strf("%zu bytes read back after marker \"%s\"", L, S.c_str())); 
    if (L) c.nontrivial(); if (low) c.label("lower case"); if (c.sampling()) c.sample(strf("%zu bytes, marker \"%s\", %zu bytes before, %zu behind", L, S.c_str(), pre.size(), post.size())); });
  c.add("hex_absent_marker", 100000, 4000000, [H](Src &s, Ctx &c) { const Kat &K = *(*H)[s.draw(H->size() - 1)]; std::string S = gen_marker(s, 49), t = gen_text(s, s.draw(200), s.coin(1, 2) ? "" : "ab0=\n"); if (t.find(S) != std::string::npos) c.discard(); Rd r{t}; FILE *f = rd_open(s, r); size_t L = 1 + s.draw(60); Bytes b(L + 8, 0xC7); int g = K.rh(f, b.data(), (int)L, (char *)S.c_str()); fclose(f); c.check(g == 0, "ReadHex reports success without its marker"); for (size_t i = L; i < L + 8; i++) c.check(b[i] == 0xC7, "ReadHex writes outside its buffer"); c.nontrivial(); });
}

// C16: all libraries coexist in one process under the published names and sizes.
#include "kemgen.hpp"
#include "hashgen.hpp"
#include <sys/mman.h>
#include <fstream>
#include <sstream>
#include <set>
DEFINE_RANDOMBYTES
struct Api { int k; size_t pk, sk, ct, kc, ec, ss; int (*kd)(uint8_t *, uint8_t *, const uint8_t *), (*kp)(uint8_t *, uint8_t *), (*ed)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *), (*en)(uint8_t *, uint8_t *, const uint8_t *), (*de)(uint8_t *, const uint8_t *, const uint8_t *); };
typedef void (*SH)(uint8_t *, size_t, const uint8_t *, size_t); typedef void (*H3)(uint8_t *, const uint8_t *, size_t);
typedef void (*X4)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
struct Hash { SH s128, s256; H3 h256, h512; X4 x128, x256; size_t r128, r256, r3256, r3512; };
static std::vector<KLib> LB; static std::string D; static std::vector<std::string> LIBS; static std::vector<std::pair<std::string, std::string>> PROB;
struct Sym { std::string lib; char type; std::string name; }; static std::vector<Sym> SYM;
static bool undef(const Sym &s) { return s.type == 'U' || s.type == 'w' || s.type == 'v'; }
static std::string short_name(const std::string &l) { size_t p = l.find("__"); return l.substr(0, p) + "/" + l.substr(p + 2); }
// load libraries in the given order; one that needs a later one is tried again
static void load(Ctx &c, std::vector<std::string> order, int flags) {
  std::string err; while (!order.empty()) { std::vector<std::string> left; for (auto &l : order) if (!dlopen((D + "/" + l).c_str(), RTLD_GLOBAL | flags)) { err = dlerror(); left.push_back(l); } if (left.size() == order.size()) c.fail("cannot load " + short_name(left[0]) + ": " + err); order = left; }
}
static void shuffle(Src &s, std::vector<std::string> &v) { for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[s.draw(i)]); }
static void *need(Ctx &c, const std::string &n) { void *p = dlsym(RTLD_DEFAULT, n.c_str()); if (!p) c.fail("no library defines the published function " + n); return p; }
struct Mod { std::string impl; Api a; };
static const KLib *ref_of(int k, const std::string &impl) { for (auto &l : LB) if (l.k == k && l.impl == impl) return &l; return nullptr; }
// An interleaved history over the given modules and hash functions. Every result is compared with the library of that parameter set alone.
static void history(Src &s, Ctx &c, std::vector<Mod> &M, std::vector<std::pair<std::string, Hash>> &H, const std::string &pre) {
  std::map<const KLib *, std::vector<std::pair<Key, Bytes>>> keys; unsigned n = 4 + s.draw(14); std::string log = pre; std::set<std::string> used; Bytes rb; size_t rbp = 0;
  rb_hook().f = [&](uint8_t *o, size_t m) { for (size_t i = 0; i < m; i++) o[i] = rbp < rb.size() ? rb[rbp++] : 0x99; };
  for (unsigned i = 0; i < n; i++) {
    if (!H.empty() && s.coin(1, 4)) { auto &h = H[s.draw(H.size() - 1)]; unsigned w = s.draw(5); size_t il = gen_len(s, 136, 400), ol = w < 2 || w > 3 ? gen_len(s, 136, 400) : w == 2 ? 32 : 64; Bytes in = s.bytes(il, 0), o(ol, 0xEE); log += " hash." + h.first; used.insert("h" + h.first);
      switch (w) { case 0: h.second.s128(o.data(), ol, in.data(), il); c.eq(o, model::shake(128, in, ol), log + " shake128"); break; case 1: h.second.s256(o.data(), ol, in.data(), il); c.eq(o, model::shake(256, in, ol), log + " shake256"); break; case 2: h.second.h256(o.data(), in.data(), il); c.eq(o, model::sha3(256, in), log + " sha3_256"); break; case 3: h.second.h512(o.data(), in.data(), il); c.eq(o, model::sha3(512, in), log + " sha3_512"); break;
        default: { X4 f = w == 4 ? h.second.x128 : h.second.x256; if (!f) break; Bytes in2 = s.bytes(il, 0), o2(ol), o3(ol), o4(ol); f(o.data(), o2.data(), o3.data(), o4.data(), ol, in.data(), in2.data(), in.data(), in2.data(), il); Bytes e1 = model::shake(w == 4 ? 128 : 256, in, ol), e2 = model::shake(w == 4 ? 128 : 256, in2, ol); c.eq(o, e1, log + " x4 lane 0"); c.eq(o2, e2, log + " x4 lane 1"); c.eq(o3, e1, log + " x4 lane 2"); c.eq(o4, e2, log + " x4 lane 3"); } }
      continue; }
    Mod &m = M[s.draw(M.size() - 1)]; const KLib *R = ref_of(m.a.k, m.impl); if (!R) continue; auto &ks = keys[R]; std::string w = strf(" kyber%d_%s", 256 * m.a.k, m.impl.c_str()); used.insert(w); int op = ks.empty() ? 0 : s.draw(3);
    if (op == 0) { Bytes co = gen_coins(s, 64); Bytes pk(R->pk, 1), sk(R->sk, 1); bool d = s.coin(1, 2); log += w + (d ? ".keypair_derand" : ".keypair"); int r = d ? m.a.kd(pk.data(), sk.data(), co.data()) : (rb = co, rbp = 0, m.a.kp(pk.data(), sk.data())); c.check(r == 0, log + ": status not 0"); Key e = lib_keypair(*R, co); c.eq(pk, e.pk, log + ": public key"); c.eq(sk, e.sk, log + ": secret key"); ks.push_back({e, Bytes()}); }
    else if (op == 1 || ks.back().second.empty()) { auto &k = ks[s.draw(ks.size() - 1)]; Bytes co = gen_coins(s, 32), ct(R->ct, 1), ss(32, 1), ec(R->ct), es(32); bool d = s.coin(1, 2); log += w + (d ? ".enc_derand" : ".enc"); int r = d ? m.a.ed(ct.data(), ss.data(), k.first.pk.data(), co.data()) : (rb = co, rbp = 0, m.a.en(ct.data(), ss.data(), k.first.pk.data())); c.check(r == 0, log + ": status not 0"); R->enc_derand(ec.data(), es.data(), k.first.pk.data(), co.data()); c.eq(ct, ec, log + ": ciphertext"); c.eq(ss, es, log + ": shared secret"); k.second = ct; }
    else { auto &k = ks[s.draw(ks.size() - 1)]; Bytes ct = k.second.empty() ? s.bytes(R->ct, 1) : k.second; if (s.coin(1, 2)) tamper(s, m.a.k, ct); Bytes ss(32, 1), es(32); log += w + ".dec"; int r = m.a.de(ss.data(), ct.data(), k.first.sk.data()); c.check(r == 0, log + ": status not 0"); R->dec(es.data(), ct.data(), k.first.sk.data()); c.eq(ss, es, log + ": decapsulated secret"); }
  }
  rb_hook().f = nullptr; if (used.size() > 1) c.nontrivial(); c.label(strf("%zu parties", used.size())); if (c.sampling()) c.sample(log);
}
// a buffer of exactly n bytes that ends at an unmapped page
static uint8_t *guarded(size_t n, const Bytes &init = {}) { size_t L = (n + 4095) / 4096 * 4096; uint8_t *p = (uint8_t *)mmap(nullptr, L + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, L, PROT_READ | PROT_WRITE); uint8_t *q = p + 4096 + L - n; memset(p + 4096, 0xC7, L); if (!init.empty()) memcpy(q, init.data(), n); return q; }
static void before_ok(Ctx &c, uint8_t *q, const std::string &w) { for (uint8_t *p = (uint8_t *)((uintptr_t)q & ~4095ull); p < q; p++) if (*p != 0xC7) c.fail(w + ": memory before the argument was written"); }
static void sizes(Src &s, Ctx &c, const Mod &m, int what) {
  const Api &a = m.a; const model::Params &P = model::params(a.k); std::string w = strf("kyber%d_%s through api.h: ", 256 * a.k, m.impl.c_str());
  c.check(a.pk == P.pk && a.sk == P.sk && a.ct == P.ct && a.kc == 64 && a.ec == 32 && a.ss == 32, w + strf("published lengths pk %zu sk %zu ct %zu coins %zu/%zu secret %zu", a.pk, a.sk, a.ct, a.kc, a.ec, a.ss));
  Bytes co = s.prng(64), mm = s.prng(32); Bytes pk(a.pk), sk(a.sk), ct(a.ct), ss(a.ss); if (what < 0) return;
  uint8_t *gp = guarded(a.pk), *gs = guarded(a.sk), *gk = guarded(a.kc, co), *gc = guarded(a.ct), *gx = guarded(a.ss), *gm = guarded(a.ec, mm);
  a.kd(gp, gs, gk); before_ok(c, gp, w + "public key"); before_ok(c, gs, w + "secret key"); a.ed(gc, gx, gp, gm); before_ok(c, gc, w + "ciphertext"); before_ok(c, gx, w + "shared secret");
  uint8_t *gy = guarded(a.ss); a.de(gy, gc, gs); before_ok(c, gy, w + "decapsulated secret"); c.eq(gx, gy, a.ss, w + "round trip");
  // every byte of each output is written: a second run over another filling
  uint8_t *hp = guarded(a.pk, Bytes(a.pk, 0x38)), *hs = guarded(a.sk, Bytes(a.sk, 0x38)), *hc = guarded(a.ct, Bytes(a.ct, 0x38)), *hx = guarded(a.ss, Bytes(a.ss, 0x38)), *hy = guarded(a.ss, Bytes(a.ss, 0x38));
  a.kd(hp, hs, gk); a.ed(hc, hx, gp, gm); a.de(hy, gc, gs); c.eq(hp, gp, a.pk, w + "public key not completely written"); c.eq(hs, gs, a.sk, w + "secret key not completely written"); c.eq(hc, gc, a.ct, w + "ciphertext not completely written"); c.eq(hx, gx, a.ss, w + "secret not completely written"); c.eq(hy, gy, a.ss, w + "decapsulated secret not completely written");
  // the last byte of each input by its published length matters
  gk[a.kc - 1] ^= 1; a.kd(hp, hs, gk); c.check(memcmp(hs, gs, a.sk) != 0, w + "last byte of the key coins is not read"); gm[a.ec - 1] ^= 1; a.ed(hc, hx, gp, gm); c.check(memcmp(hc, gc, a.ct) != 0, w + "last byte of the encapsulation coins is not read"); gm[a.ec - 1] ^= 1;
  gp[a.pk - 1] ^= 1; a.ed(hc, hx, gp, gm); c.check(memcmp(hc, gc, a.ct) != 0, w + "last byte of the public key is not read"); gc[a.ct - 1] ^= 1; a.de(hy, gc, gs); c.check(memcmp(hy, gy, a.ss) != 0, w + "last byte of the ciphertext is not read"); gs[a.sk - 1] ^= 1; a.de(gy, gc, gs); c.check(memcmp(hy, gy, a.ss) != 0, w + "last byte of the secret key is not read");
  c.nontrivial(); if (c.sampling()) c.sample(w + strf("pk %zu sk %zu ct %zu", a.pk, a.sk, a.ct));
}
void define_check(Check &c, int) {
  c.id = "C16"; D = envs("VF_SHARED", "");
  c.rule = "The shared libraries as the Makefiles build them: symbol tables; generated load orders and subsets with interleaved call histories through published names; API tables compiled from api.h / fips202.h / fips202x4.h with buffers of exactly the published lengths at unmapped pages; the same histories over one static link of all parameter sets, implementations and hash layers. Oracle: each parameter set alone, the reference model for hashes. Non-trivial: a history that uses at least two libraries.";
  c.assumptions = {"The shared libraries are built with gcc by the project's Makefiles (-march=native replaced by x86-64-v3).", "randombytes is supplied by the program, as the libraries leave it undefined."};
  LB = load_all("std"); std::string l; { std::ifstream f(D + "/libs.txt"); while (std::getline(f, l)) LIBS.push_back(l); } { std::ifstream f(D + "/problems.txt"); while (std::getline(f, l)) { size_t t = l.find('\t'); PROB.push_back({l.substr(0, t), l.substr(t + 1)}); } }
  { std::ifstream f(D + "/symbols.txt"); while (std::getline(f, l)) { std::stringstream q(l); Sym s; std::string t; q >> s.lib >> t >> s.name; s.type = t[0]; s.name = s.name.substr(0, s.name.find('@')); SYM.push_back(s); } }
  c.add_enum("headers_and_static_link", 1, [](Src &s, Ctx &c) { s.draw(UINT64_MAX); if (!PROB.empty()) c.fail(PROB[0].first + ": " + PROB[0].second.substr(0, 700)); c.nontrivial(); c.sample("api.h, kem.h and the hash headers agree; everything links into one program without duplicates"); });
  c.add_enum("symbol_tables", SYM.size(), [](Src &s, Ctx &c) {
    const Sym &y = SYM[s.draw(UINT64_MAX) % SYM.size()];
    if (!undef(y)) {
      if (y.name == "_init" || y.name == "_fini" || y.name == "_edata" || y.name == "_end" || y.name == "__bss_start") return;
      c.check(y.name.compare(0, 11, "pqcrystals_") == 0, short_name(y.lib) + " defines " + y.name + ", which is outside the project's namespace");
      for (auto &z : SYM) if (z.lib != y.lib && !undef(z) && z.name == y.name) c.fail(y.name + " is defined by " + short_name(y.lib) + " and by " + short_name(z.lib));
      c.nontrivial();
    } else if (y.type == 'U' && y.name != "randombytes") {
      bool found = false; for (auto &z : SYM) if (!undef(z) && z.name == y.name) found = true;
      if (y.name.compare(0, 11, "pqcrystals_") == 0) c.check(found, short_name(y.lib) + " needs " + y.name + ", which no library of the project defines"); else c.check(found || dlsym(RTLD_DEFAULT, y.name.c_str()), short_name(y.lib) + " needs " + y.name + ", which neither the project nor the C library defines");
      c.nontrivial();
    }
    if (c.sampling()) c.sample(short_name(y.lib) + " " + y.name);
  });
  c.add("libraries_by_name", 30000, 400000, [](Src &s, Ctx &c) {
    // a subset: any KEM libraries, with the hash libraries of their implementation
    std::vector<std::string> sub, kem; bool impls[2] = {false, false}; bool all = s.coin(1, 3); for (auto &l : LIBS) if (l.find("kyber") != std::string::npos && (all || s.coin(1, 2))) { kem.push_back(l); impls[l.compare(0, 4, "avx2") == 0] = true; }
    if (kem.empty()) c.discard(); sub = kem; for (auto &l : LIBS) if (l.find("kyber") == std::string::npos && (impls[l.compare(0, 4, "avx2") == 0] || s.coin(1, 3))) sub.push_back(l); shuffle(s, sub); int fl = s.coin(1, 2) ? RTLD_NOW : RTLD_LAZY; load(c, sub, fl);
    std::vector<Mod> M; std::vector<std::pair<std::string, Hash>> H; std::string log = "loaded"; for (auto &l : sub) log += " " + short_name(l); log += ":";
    for (auto &l : kem) for (int k : {2, 3, 4}) if (l.find("kyber" + std::to_string(256 * k)) != std::string::npos) { Mod m; m.impl = l.compare(0, 4, "avx2") == 0 ? "avx2" : "ref"; std::string p = strf("pqcrystals_kyber%d_%s_", 256 * k, m.impl.c_str()); m.a.k = k; *(void **)&m.a.kd = need(c, p + "keypair_derand"); *(void **)&m.a.kp = need(c, p + "keypair"); *(void **)&m.a.ed = need(c, p + "enc_derand"); *(void **)&m.a.en = need(c, p + "enc"); *(void **)&m.a.de = need(c, p + "dec"); M.push_back(m); }
    history(s, c, M, H, log);
  }); c.last().isolate = true;
  auto tables = [](Src &s, Ctx &c, bool st, std::vector<Mod> &M, std::vector<std::pair<std::string, Hash>> &H) {
    void *h = nullptr; if (st) { h = dlopen((D + "/all_static.so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) c.fail(std::string("the static link of everything does not load: ") + dlerror()); void **rb = (void **)dlsym(h, "vf_static_rb"); *rb = dlsym(RTLD_DEFAULT, "randombytes"); } else { auto o = LIBS; shuffle(s, o); load(c, o, s.coin(1, 2) ? RTLD_NOW : RTLD_LAZY); }
    for (std::string impl : {"ref", "avx2"}) {
      void *t = h, *u = h; if (!st) { t = dlopen((D + "/api_" + impl + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!t) c.fail("api.h of " + impl + " declares a function that the libraries do not define: " + dlerror()); u = dlopen((D + "/hash_" + impl + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!u) c.fail("a hash header of " + impl + " declares a function that the libraries do not define: " + dlerror()); }
      const Api *a = (const Api *)dlsym(t, ("vf_api_" + impl).c_str()); if (!a) c.fail("no API table"); for (int i = 0; i < 3; i++) M.push_back({impl, a[i]}); const Hash *x = (const Hash *)dlsym(u, ("vf_hash_" + impl).c_str()); if (!x) c.fail("no hash table"); H.push_back({impl, *x});
    } };
  c.add("published_headers", 30000, 400000, [tables](Src &s, Ctx &c) { if (!PROB.empty()) c.discard(); std::vector<Mod> M; std::vector<std::pair<std::string, Hash>> H; tables(s, c, false, M, H); history(s, c, M, H, "all libraries:"); }); c.last().isolate = true;
  c.add("published_lengths", 3000, 20000, [tables](Src &s, Ctx &c) { if (!PROB.empty()) c.discard(); std::vector<Mod> M; std::vector<std::pair<std::string, Hash>> H; bool st = s.coin(1, 2); tables(s, c, st, M, H); sizes(s, c, M[s.draw(M.size() - 1)], 1); const Hash &h = H[s.draw(1)].second; c.check(h.r128 == 168 && h.r256 == 136 && h.r3256 == 136 && h.r3512 == 72, "a published sponge rate is wrong"); }); c.last().isolate = true;
  c.add("one_static_program", 50000, 800000, [tables](Src &s, Ctx &c) { if (!PROB.empty()) c.discard(); std::vector<Mod> M; std::vector<std::pair<std::string, Hash>> H; tables(s, c, true, M, H); history(s, c, M, H, "static program:"); }); c.last().isolate = true;
}

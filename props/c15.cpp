// C15: no access outside the documented extents, no undefined behaviour, no uninitialised byte in a result.
// One harness, three memories: guard pages around every argument (plain builds), exact heap blocks (Address/UB sanitizer builds,
// where locals and heap are policed by the compiler), exact heap blocks under memcheck (definedness of every result byte).
#include "kemgen.hpp"
#include "hashgen.hpp"
#include <valgrind/memcheck.h>
DEFINE_RANDOMBYTES
static std::vector<KLib> LB; static int mode; // 0 guard pages, 1 heap (sanitizer), 2 heap (memcheck)
static const size_t RG = 65536, NR = 12; static uint8_t *arena;
static void mk_arena() { size_t t = NR * (RG + 8192); arena = (uint8_t *)mmap(nullptr, t, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (size_t i = 0; i < NR; i++) mprotect(arena + i * (RG + 8192) + 4096, RG, PROT_READ | PROT_WRITE); }
struct Blk { uint8_t *p; size_t n; uint8_t *lo, *hi; bool out; std::vector<uint8_t> copy; };
struct Mem {
  Src &s; std::vector<Blk> b; std::vector<void *> heap; explicit Mem(Src &s) : s(s) {} ~Mem() { for (auto p : heap) free(p); }
  uint8_t *get(size_t n, size_t align = 1) {
    Blk k; k.n = n; k.out = false;
    if (mode) { void *p = nullptr; if (align > 16) { if (posix_memalign(&p, align, n ? n : 1)) abort(); } else p = malloc(n ? n : 1); heap.push_back(p); k.p = (uint8_t *)p; if (!n && mode == 1) { free(p); heap.pop_back(); k.p = (uint8_t *)"" + 0; } k.lo = k.hi = nullptr; if (!n) { static uint8_t dummy[64]; k.p = dummy; } b.push_back(k); return k.p; }
    if (b.size() >= NR || n > RG) abort();
    uint8_t *base = arena + b.size() * (RG + 8192) + 4096; bool end = !s.coin(1, 3); size_t pad = end ? (RG - n) % align : 0; k.p = end ? base + RG - n - pad : base; 
    if (!end && align == 1 && s.coin(1, 2)) k.p += s.draw(31); // in the page, any misalignment: both neighbourhoods are canaries
    k.lo = k.p - std::min<size_t>(k.p - base, 320); k.hi = std::min(base + RG, k.p + n + 320); memset(k.lo, 0xC7, k.hi - k.lo); b.push_back(k); return k.p; }
  uint8_t *in(const Bytes &x, size_t align = 1) { uint8_t *p = get(x.size(), align); if (x.size()) memcpy(p, x.data(), x.size()); return p; }
  uint8_t *out(size_t n, size_t align = 1) { uint8_t *p = get(n, align); b.back().out = true; return p; }
  void mark() { b.back().out = true; }
  void check(Ctx &c, const std::string &w, unsigned errs) {
    for (size_t i = 0; i < b.size(); i++) { Blk &k = b[i];
      if (!mode) { for (uint8_t *q = k.lo; q < k.p; q++) if (*q != 0xC7) c.fail(w + strf(": wrote %zu byte(s) before block %zu", (size_t)(k.p - q), i)); for (uint8_t *q = k.p + k.n; q < k.hi; q++) if (*q != 0xC7) c.fail(w + strf(": wrote %zu byte(s) beyond block %zu of %zu bytes", (size_t)(q - k.p - k.n) + 1, i, k.n)); }
      if (mode == 2 && k.out && k.n) { uint64_t off = VALGRIND_CHECK_MEM_IS_DEFINED(k.p, k.n); if (off) c.fail(w + strf(": byte %llu of result block %zu (%zu bytes) is not defined", (unsigned long long)(off - (uint64_t)k.p), i, k.n)); } }
    if (mode == 2) { unsigned e = VALGRIND_COUNT_ERRORS; if (e != errs) c.fail(w + strf(": memcheck reports %u error(s)", e - errs)); } }
};
struct Run { Mem m; Ctx &c; std::string w; unsigned e0; Run(Src &s, Ctx &c, const std::string &w) : m(s), c(c), w(w), e0(mode == 2 ? VALGRIND_COUNT_ERRORS : 0) {} void done() { m.check(c, w, e0); c.nontrivial(); c.label(w.substr(w.find('.') + 1)); if (c.sampling()) c.sample(w); } };
typedef void (*v2)(void *, const void *); typedef void (*v3)(void *, const void *, const void *);
static Bytes coeff_bytes(Src &s, int k, int lo, int hi) { Bytes b(512 * k); for (int j = 0; j < k; j++) { auto v = gen_coeffs(s, hi - lo + 1); for (int i = 0; i < 256; i++) { int16_t x = lo + v[i]; memcpy(&b[512 * j + 2 * i], &x, 2); } } return b; }
static Bytes any_pk(Src &s, const KLib &l) { switch (s.draw(2)) { case 0: return lib_keypair(l, gen_coins(s, 64)).pk; case 1: return s.bytes(l.pk, 2); default: { Bytes b = gen_poly_bytes(s, l.k, 4096); Bytes r = s.bytes(32, 1); b.insert(b.end(), r.begin(), r.end()); return b; } } }
static Bytes any_sk(Src &s, const KLib &l) { switch (s.draw(2)) { case 0: return lib_keypair(l, gen_coins(s, 64)).sk; case 1: return s.bytes(l.sk, 3); default: { Bytes b = gen_poly_bytes(s, l.k, 4096); Bytes p = any_pk(s, l), z = s.bytes(64, 1); b.insert(b.end(), p.begin(), p.end()); b.insert(b.end(), z.begin(), z.end()); return b; } } }
void define_check(Check &c, int) {
  c.id = "C15"; mode = atoi(envs("VF_MEM", "0"));
  c.rule = mode == 0 ? "Guard pages: every argument of every call lies directly before or behind an unmapped page (or at a drawn misalignment between canaries); inputs generated, including non-canonical keys and every length class." : mode == 1 ? "Sanitizers: the same calls on exact heap blocks, in builds with Address and UndefinedBehavior sanitizers." : "Memcheck: the same calls on exact, undefined heap blocks; every result byte must be defined.";
  c.assumptions = {"Documented padding is allowed: polyvec_compress +2 bytes, polyvec_decompress +12, noise buffer of the vectorised sampler +32.", "Unaligned 64-bit loads in the Keccak code package and the null-based gather addresses are compiler-dependent idioms and not reported.", "Hand-written assembly is policed by guard pages and memcheck, not by the compiler sanitizers."};
  LB = load_all(); if (!mode) mk_arena(); bool vg = mode == 2; auto N = [&](uint64_t q, uint64_t t) { return q; }; (void)N;
  // thresholds: cases per memory
  auto Q = [&](uint64_t guard, uint64_t asan, uint64_t mc) { return mode == 0 ? guard : mode == 1 ? asan : mc; };
  c.add("kem_operations", Q(600000, 120000, 800), Q(6000000, 1000000, 6000), [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); static const char *N[] = {"keypair_derand", "enc_derand", "dec", "keypair", "enc"}; int op = s.weighted({3, 5, 5, 1, 1}); Bytes dr = s.bytes(64, 1); rb_hook().f = [&](uint8_t *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = dr[i % 64]; };
    Bytes a, b; if (op == 0) a = gen_coins(s, 64); if (op == 1 || op == 4) { a = any_pk(s, l); b = gen_coins(s, 32); } if (op == 2) { b = any_sk(s, l); if (s.coin(1, 2)) { a.assign(l.ct, 0); Bytes ss(32), co = gen_coins(s, 32); l.enc_derand(a.data(), ss.data(), b.data() + 384 * l.k, co.data()); if (s.coin(1, 2)) tamper(s, l.k, a); } else a = s.bytes(l.ct, 3); }
    Run r(s, c, l.name() + "." + N[op]); uint8_t *x, *y;
    switch (op) { case 0: x = r.m.out(l.pk); y = r.m.out(l.sk); l.keypair_derand(x, y, r.m.in(a)); break; case 1: x = r.m.out(l.ct); y = r.m.out(32); { uint8_t *p = r.m.in(a), *q = r.m.in(b); l.enc_derand(x, y, p, q); } break; case 2: x = r.m.out(32); { uint8_t *p = r.m.in(a), *q = r.m.in(b); l.dec(x, p, q); } break; case 3: x = r.m.out(l.pk); y = r.m.out(l.sk); l.keypair(x, y); break; default: x = r.m.out(l.ct); y = r.m.out(32); l.enc(x, y, r.m.in(a)); }
    rb_hook().f = nullptr; r.done();
  }, mode == 1);
  c.add("hash_interfaces", Q(3000000, 500000, 3000), Q(30000000, 6000000, 40000), [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); int op = s.weighted({2, 2, 4, 4, 6, 4}); int bits = s.coin(1, 2) ? 256 : 128; size_t R = bits == 128 ? 168 : 136; std::string P = bits == 128 ? "shake128" : "shake256";
    size_t n = gen_len(s, R, 700), o = gen_len(s, R, 700);
    typedef void (*h2)(uint8_t *, const uint8_t *, size_t); typedef void (*h3)(uint8_t *, size_t, const uint8_t *, size_t); typedef void (*ab)(void *, const uint8_t *, size_t); typedef void (*sq)(uint8_t *, size_t, void *); typedef void (*st1)(void *);
    const size_t *ssz = (const size_t *)dlsym(l.h, "vf_keccak_state_size"); size_t SS = ssz ? *ssz : 512;
    if (op < 2) { const char *nm = op ? "sha3_512" : "sha3_256"; auto f = l.fn<h2>(nm); if (!f) c.discard(); Run r(s, c, l.impl + "." + nm); uint8_t *x = r.m.out(op ? 64 : 32), *p = r.m.in(s.bytes(n, 0)); f(x, p, n); r.done(); }
    else if (op == 2) { auto f = l.fn<h3>(P.c_str()); if (!f) c.discard(); Run r(s, c, l.impl + "." + P); uint8_t *x = r.m.out(o), *p = r.m.in(s.bytes(n, 0)); f(x, o, p, n); r.done(); }
    else if (op == 3) { // incremental, state in its own exact block
      auto in = l.fn<st1>((P + "_init").c_str()); auto a = l.fn<ab>((P + "_absorb").c_str()), ao = l.fn<ab>((P + "_absorb_once").c_str()); auto fi = l.fn<st1>((P + "_finalize").c_str()); auto q = l.fn<sq>((P + "_squeeze").c_str()), qb = l.fn<sq>((P + "_squeezeblocks").c_str()); if (!in || !a || !ao || !fi || !q || !qb || !ssz) c.discard();
      Run r(s, c, l.impl + "." + P + "_incremental"); uint8_t *st = r.m.get(SS, 32 <= SS && SS % 32 == 0 ? 32 : 8); bool once = s.coin(1, 3); unsigned k = 0; if (once) { ao(st, r.m.in(s.bytes(n, 0)), n); } else { in(st); unsigned m = 1 + s.draw(3); while (m--) { size_t z = gen_len(s, R, 400); a(st, r.m.in(s.bytes(z, 0)), z); } fi(st); }
      bool blocks = once && s.coin(1, 2); unsigned m = 1 + s.draw(3); while (m--) { size_t z = blocks ? s.draw(4) : gen_len(s, R, 400); uint8_t *x = r.m.out(blocks ? z * R : z); (blocks ? qb : q)(x, z, st); } r.done(); (void)k; }
    else if (op == 4) { typedef void (*x4)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t); auto f = l.fn<x4>((P + "x4").c_str()); if (!f) c.discard(); Run r(s, c, l.impl + "." + P + "x4"); uint8_t *x[4], *p[4]; for (auto &z : x) z = r.m.out(o); for (auto &z : p) z = r.m.in(s.bytes(n, 0)); f(x[0], x[1], x[2], x[3], o, p[0], p[1], p[2], p[3], n); r.done(); }
    else { typedef void (*ab4)(void *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t); typedef void (*sq4)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, void *); auto f = l.fn<ab4>((P + "x4_absorb_once").c_str()); auto q = l.fn<sq4>((P + "x4_squeezeblocks").c_str()); if (!f || !q) c.discard(); Run r(s, c, l.impl + "." + P + "x4_incremental"); uint8_t *st = r.m.get(800, 32), *x[4], *p[4]; for (auto &z : p) z = r.m.in(s.bytes(n, 0)); f(st, p[0], p[1], p[2], p[3], n); size_t nb = s.draw(3); for (auto &z : x) z = r.m.out(nb * R); q(x[0], x[1], x[2], x[3], nb, st); r.done(); }
  }, mode == 1);
  c.add("polynomial_helpers", Q(2000000, 400000, 4000), Q(20000000, 4000000, 40000), [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); int k = l.k; bool av = l.impl == "avx2"; size_t pc = k == 4 ? 160 : 128, pvc = k * (k == 4 ? 352 : 320); struct D { const char *n; int kind; }; 
    static const D T[] = {{"poly_compress", 0}, {"poly_decompress", 1}, {"poly_tobytes", 2}, {"poly_frombytes", 3}, {"poly_frommsg", 4}, {"poly_tomsg", 5}, {"poly_ntt", 6}, {"poly_invntt_tomont", 7}, {"poly_basemul_montgomery", 8}, {"poly_tomont", 9}, {"poly_reduce", 9}, {"poly_add", 10}, {"poly_sub", 10}, {"polyvec_compress", 11}, {"polyvec_decompress", 12}, {"polyvec_tobytes", 13}, {"polyvec_frombytes", 14}, {"polyvec_ntt", 15}, {"polyvec_invntt_tomont", 16}, {"polyvec_basemul_acc_montgomery", 17}, {"polyvec_reduce", 18}, {"polyvec_add", 19},
      {"poly_getnoise_eta1", 20}, {"poly_getnoise_eta2", 20}, {"gen_matrix", 21}, {"kyber_shake256_prf", 22}, {"kyber_shake256_rkprf", 23}, {"indcpa_keypair_derand", 24}, {"indcpa_enc", 25}, {"indcpa_dec", 26}, {"poly_nttunpack", 27}, {"rej_uniform_avx", 28}, {"poly_getnoise_eta1_4x", 29}, {"poly_getnoise_eta1122_4x", 30}, {"poly_cbd_eta1", 31}, {"poly_cbd_eta2", 32}, {"ntt", 6}, {"invntt", 7}, {"cmov_int16", 33}};
    const D &d = T[s.draw(sizeof T / sizeof *T - 1)]; void *f = l.find(d.n); if (!f) c.discard(); Run r(s, c, l.name() + "." + d.n); auto &m = r.m; auto red = [&](int n) { return m.in(coeff_bytes(s, n, -3328, 3328), 32); }; auto pos = [&](int n) { return m.in(coeff_bytes(s, n, 0, 3328), 32); }; auto any = [&](int n) { return m.in(coeff_bytes(s, n, -32768, 32767), 32); }; auto P = [&](int n) { return m.out(512 * n, 32); };
    auto io = [&](uint8_t *p) { m.mark(); return p; };
    switch (d.kind) {
      case 0: { auto a = pos(1); ((v2)f)(m.out(pc), a); break; } case 1: { auto a = m.in(s.bytes(pc, 2)); ((v2)f)(P(1), a); break; } case 2: { auto a = red(1); if (av) { Bytes z(a, a + 512); for (int i = 0; i < 256; i++) { int16_t x; memcpy(&x, &z[2 * i], 2); if (x < 0) x += 3329; memcpy(a + 2 * i, &x, 2); } } ((v2)f)(m.out(384), a); break; } case 3: { auto a = m.in(s.bytes(384, 2)); ((v2)f)(P(1), a); break; } case 4: { auto a = m.in(s.bytes(32, 2)); ((v2)f)(P(1), a); break; } case 5: { auto a = pos(1); ((v2)f)(m.out(32), a); break; }
      case 6: ((v2)f)(io(red(1)), nullptr); break; case 7: ((v2)f)(io(red(1)), nullptr); break; case 8: { auto a = red(1), b = red(1); ((v3)f)(P(1), a, b); break; } case 9: ((v2)f)(io(any(1)), nullptr); break; case 10: { auto a = m.in(coeff_bytes(s, 1, -16384, 16383), 32), b = m.in(coeff_bytes(s, 1, -16384, 16383), 32); ((v3)f)(P(1), a, b); break; }
      case 11: { auto a = pos(k); uint8_t *o = m.get(pvc + (av ? 2 : 0)); ((v2)f)(o, a); if (mode == 2 && VALGRIND_CHECK_MEM_IS_DEFINED(o, pvc)) c.fail("compressed bytes undefined"); break; } case 12: { auto a = m.in(s.bytes(pvc + (av ? 12 : 0), 2)); ((v2)f)(P(k), a); break; } case 13: { auto a = pos(k); ((v2)f)(m.out(384 * k), a); break; } case 14: { auto a = m.in(s.bytes(384 * k, 2)); ((v2)f)(P(k), a); break; } case 15: case 16: ((v2)f)(io(red(k)), nullptr); break; case 17: { auto a = red(k), b = red(k); ((v3)f)(P(1), a, b); break; } case 18: ((v2)f)(io(any(k)), nullptr); break; case 19: { auto a = m.in(coeff_bytes(s, k, -16384, 16383), 32), b = m.in(coeff_bytes(s, k, -16384, 16383), 32); ((v3)f)(P(k), a, b); break; }
      case 20: { auto a = m.in(s.bytes(32, 1)); ((void (*)(void *, const void *, uint8_t))f)(P(1), a, s.draw(255)); break; } case 21: { auto a = m.in(s.bytes(32, 1)); ((void (*)(void *, const void *, int))f)(m.out(512 * k * k, 32), a, s.draw(1)); break; } case 22: { auto a = m.in(s.bytes(32, 1)); size_t n = s.draw(500); ((void (*)(void *, size_t, const void *, uint8_t))f)(m.out(n), n, a, s.draw(255)); break; } case 23: { auto a = m.in(s.bytes(32, 1)), b = m.in(s.bytes(l.ct, 1)); ((v3)f)(m.out(32), a, b); break; }
      case 24: { auto a = m.in(s.bytes(32, 1)); auto p = m.out(l.pk); ((v3)f)(p, m.out(384 * k), a); break; } case 25: { auto a = m.in(s.bytes(32, 1)), b = m.in(any_pk(s, l)), z = m.in(s.bytes(32, 1)); ((void (*)(void *, void *, void *, void *))f)(m.out(l.ct), a, b, z); break; } case 26: { auto a = m.in(s.bytes(l.ct, 2)), b = m.in(gen_poly_bytes(s, k, 4096)); ((v3)f)(m.out(32), a, b); break; } case 27: ((v2)f)(io(any(1)), nullptr); break;
      case 28: { auto a = m.in(s.bytes(504, 3)); uint8_t *o = m.get(512, 32); unsigned n = ((unsigned (*)(void *, const void *))f)(o, a); c.check(n <= 256, strf("rej_uniform_avx returns %u", n)); if (mode == 2 && n && VALGRIND_CHECK_MEM_IS_DEFINED(o, 2 * n)) c.fail("accepted coefficients undefined"); break; }
      case 29: case 30: { auto a = m.in(s.bytes(32, 1)); auto p = P(1), q = P(1), x = P(1), y = P(1); ((void (*)(void *, void *, void *, void *, void *, uint8_t, uint8_t, uint8_t, uint8_t))f)(p, q, x, y, a, s.draw(255), s.draw(255), s.draw(255), s.draw(255)); break; }
      case 31: case 32: { size_t eta = d.kind == 31 && k == 2 ? 3 : 2, n = eta * 64 + (av && d.kind == 31 ? 32 : 0); auto a = m.in(s.bytes(n, 2), av ? 32 : 1); ((v2)f)(P(1), a); break; }
      case 33: { auto a = m.in(s.bytes(2, 0), 2); m.mark(); ((void (*)(void *, int16_t, uint16_t))f)(a, s.draw(65535), s.draw(1)); break; }
    }
    r.done();
  }, mode == 1);
  c.add("comparison_and_moves", Q(2000000, 400000, 4000), Q(20000000, 4000000, 40000), [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); size_t n = gen_len(s, 32, 2000); int op = s.draw(1); Run r(s, c, l.name() + (op ? ".cmov" : ".verify")); auto &m = r.m; Bytes a = s.bytes(n, 1), b = s.coin(1, 2) ? a : s.bytes(n, 1);
    if (op) { auto f = l.fn<void (*)(uint8_t *, const uint8_t *, size_t, uint8_t)>("cmov"); if (!f) c.discard(); uint8_t *x = m.in(a); m.mark(); f(x, m.in(b), n, s.draw(1)); } else { auto f = l.fn<int (*)(const uint8_t *, const uint8_t *, size_t)>("verify"); if (!f) c.discard(); uint8_t *x = m.in(a), *y = m.in(b); volatile int v = f(x, y, n); if (mode == 2) { int w = v; if (VALGRIND_CHECK_MEM_IS_DEFINED(&w, 4)) c.fail("result of verify undefined"); } } r.done();
  }, mode == 1);
  c.add("keccak_state_functions", Q(2000000, 400000, 3000), Q(20000000, 4000000, 40000), [](Src &s, Ctx &c) {
    std::vector<const KLib *> A; for (auto &l : LB) if (l.impl == "avx2") A.push_back(&l); if (A.empty()) c.discard(); const KLib &l = *A[s.draw(A.size() - 1)]; auto F = [&](const char *n) { return l.find((std::string("KeccakP1600times4_") + n).c_str()); };
    static const char *N[] = {"AddBytes", "AddLanesAll", "OverwriteBytes", "OverwriteLanesAll", "OverwriteWithZeroes", "PermuteAll_24rounds", "ExtractBytes", "ExtractLanesAll", "ExtractAndAddBytes", "ExtractAndAddLanesAll", "PermuteAll_12rounds", "InitializeAll", "FastLoop", "12rounds_FastLoop_Absorb"}; int op = s.draw(13); void *f = op == 12 ? l.find("KeccakF1600times4_FastLoop_Absorb") : F(N[op]); if (!f) c.discard();
    Run r(s, c, std::string("avx2.") + N[op]); auto &m = r.m; uint8_t *st = op == 11 ? m.out(800, 32) : m.in(s.bytes(800, 1), 32); if (op != 11) m.mark(); unsigned inst = s.draw(3), off = s.draw(200), len = s.coin(1, 2) ? 200 - off : s.draw(200 - off), lc = s.draw(25), lo = lc + (s.coin(1, 2) ? s.draw(6) : 0); size_t ln = lc ? (3 * lo + lc) * 8 : 0;
    switch (op) { case 0: case 2: ((void (*)(void *, unsigned, const uint8_t *, unsigned, unsigned))f)(st, inst, m.in(s.bytes(len, 0)), off, len); break; case 1: case 3: ((void (*)(void *, const uint8_t *, unsigned, unsigned))f)(st, m.in(s.bytes(ln, 0)), lc, lo); break; case 4: ((void (*)(void *, unsigned, unsigned))f)(st, inst, len); break; case 5: case 10: case 11: ((void (*)(void *))f)(st); break;
      case 6: ((void (*)(const void *, unsigned, uint8_t *, unsigned, unsigned))f)(st, inst, m.out(len), off, len); break; case 7: { uint8_t *o = m.get(ln); ((void (*)(const void *, uint8_t *, unsigned, unsigned))f)(st, o, lc, lo); break; } case 8: { auto a = m.in(s.bytes(len, 0)); ((void (*)(const void *, unsigned, const uint8_t *, uint8_t *, unsigned, unsigned))f)(st, inst, a, m.out(len), off, len); break; } case 9: { auto a = m.in(s.bytes(ln, 0)); uint8_t *o = m.get(ln); ((void (*)(const void *, const uint8_t *, uint8_t *, unsigned, unsigned))f)(st, a, o, lc, lo); break; }
      default: { static const unsigned LC[] = {21, 17, 9, 1, 16, 20, 24, 25, 18, 13}; unsigned cnt = s.coin(1, 3) ? 1 + s.draw(24) : LC[s.draw(9)]; bool par = s.coin(1, 2); size_t blocks = s.draw(3); unsigned lop, los; size_t tail = s.draw(cnt * 8 - 1); if (par) { lop = cnt + s.draw(4); los = 3 * lop + cnt - s.draw(2); } else { los = cnt; lop = cnt * std::max<size_t>(blocks, 1) + s.draw(4); } size_t need = (3 * (size_t)lop + cnt) * 8, n = blocks ? need + (blocks - 1) * los * 8 + tail : s.draw(need - 1); if (n > 60000) n = 60000; ((size_t (*)(void *, unsigned, unsigned, unsigned, const uint8_t *, size_t))f)(st, cnt, lop, los, m.in(s.bytes(n, 0)), n); } }
    r.done();
  }, mode == 1);
  (void)vg;
}

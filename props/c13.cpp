// C13: sampling follows the specified map from every XOF and PRF output.
#include "polylib.hpp"
#include <unordered_map>
DEFINE_RANDOMBYTES
using namespace model;
static std::vector<KLib> LB, STD; static std::vector<PL> PLS;
// ---- the stream program of the current case
struct Stream { std::vector<uint16_t> cand; uint64_t tail = 0; std::string kind; };
struct Prog { uint64_t seed = 1; unsigned xmode = 0, xparam = 0, pmode = 0; std::unordered_map<uint64_t, Stream> cache; std::map<std::string, int> kinds; uint64_t xof_calls = 0, prf_calls = 0; size_t maxoff = 0; };
static thread_local Prog PG;
static uint16_t acc_val(Rng &r, unsigned sel) { static const uint16_t e[] = {0, 1, 3328, 3327, 1664, 1665, 2048, 255}; return sel & 1 ? e[r.next() % 8] : r.next() % 3329; }
static uint16_t rej_val(Rng &r, unsigned sel) { static const uint16_t e[] = {3329, 3330, 4095, 4094, 3584, 3840, 3583, 4093}; return sel & 2 ? e[r.next() % 8] : 3329 + r.next() % 767; }
static Stream &xstream(const uint8_t *msg, size_t len) {
  uint64_t h = mix64(hash_bytes(msg, len) ^ PG.seed); auto it = PG.cache.find(h); if (it != PG.cache.end()) return it->second;
  Stream &s = PG.cache[h]; Rng r(h); unsigned mode = PG.xmode, sel = r.next() & 3; if (mode >= 8) mode = r.next() % 8; s.tail = r.next();
  auto A = [&] { s.cand.push_back(acc_val(r, sel)); }; auto R = [&] { s.cand.push_back(rej_val(r, sel)); };
  switch (mode) {
    case 0: for (int i = 0; i < 700; i++) s.cand.push_back(r.next() & 0xfff); s.kind = "uniform candidates"; break;
    case 1: { static const int pr[] = {0, 10, 25, 50, 75, 90, 97}; int p = pr[r.next() % 7]; for (int i = 0; i < 4000; i++) if ((int)(r.next() % 100) < p) R(); else A(); s.kind = strf("%d%% rejected", p); break; }
    case 2: { // the 256th accepted candidate sits exactly at or next to a block boundary (112 candidates per block)
      int b = 3 + r.next() % 8, T = 112 * b + (int)(r.next() % 7) - 3; std::vector<char> a(T, 0); a[T - 1] = 1; unsigned where = r.next() % 3; for (int n = 0; n < 255;) { size_t p = where == 0 ? n : where == 1 ? T - 2 - n : r.next() % (T - 1); if (where == 2 && a[p]) continue; a[p] = 1; n++; } for (char x : a) if (x) A(); else R(); s.kind = "256th accepted at a block boundary"; break; }
    case 3: { int n = r.next() % 1600; while (n--) R(); while (s.cand.size() < 2400) A(); s.kind = "rejected prefix"; break; }
    case 4: { int p = 1 + r.next() % 33, q = 1 + r.next() % 33; for (int i = 0; i < 3000; i++) if (i % (p + q) < p) A(); else R(); s.kind = "alternating runs"; break; }
    case 5: { for (int g = 0; g < 120; g++) { int m = r.next() & 0xff; for (int i = 0; i < 8; i++) if (m >> i & 1) A(); else R(); } s.kind = "random accept masks"; break; }
    case 6: { for (int i = 0; i < 600; i++) A(); s.kind = "all accepted"; break; }
    default: { // 255 (or 254) accepted early, then a long rejected stretch, then the rest
      int n = 250 + r.next() % 6; while (n--) A(); int m = r.next() % 900; while (m--) R(); s.kind = "last coefficients late"; break; } }
  if (s.cand.size() & 1) A(); PG.kinds[s.kind]++; return s;
}
static uint16_t cand_at(Stream &s, size_t i) { if (i < s.cand.size()) return s.cand[i]; return mix64(s.tail ^ i) % 3329; }
static uint8_t xbyte(Stream &s, size_t o) { size_t i = o / 3 * 2; uint16_t a = cand_at(s, i), b = cand_at(s, i + 1); switch (o % 3) { case 0: return a & 0xff; case 1: return a >> 8 | (b & 15) << 4; default: return b >> 4; } }
static uint8_t pbyte(uint64_t h, size_t o) { unsigned mode = PG.pmode; if (mode >= 7) mode = mix64(h) % 7; switch (mode) { case 0: return mix64(h + o / 8) >> 8 * (o % 8); case 1: return 0; case 2: return 0xff; case 3: return o + (uint8_t)h; case 4: { size_t p = h % 1536; return o == p / 8 ? 1 << p % 8 : 0; } case 5: { size_t p = h % 1536; return o == p / 8 ? ~(1 << p % 8) : 0xff; } default: { static const uint8_t e[] = {0, 0xff, 0x0f, 0xf0, 0x33, 0xcc, 0x55, 0xaa, 0x38, 0x07, 0xc7, 0xe0}; return e[mix64(h + o) % 12]; } } }
extern "C" __attribute__((visibility("default"))) void vf_stream(const uint8_t *msg, size_t len, uint64_t off, uint8_t *out, size_t n) {
  if (len == 34) { PG.xof_calls++; Stream &s = xstream(msg, 34); for (size_t i = 0; i < n; i++) out[i] = xbyte(s, off + i); PG.maxoff = std::max(PG.maxoff, (size_t)off + n); }
  else { PG.prf_calls++; uint64_t h = mix64(hash_bytes(msg, 33) ^ PG.seed ^ 77); for (size_t i = 0; i < n; i++) out[i] = pbyte(h, off + i); }
}
static Hashes prog_hashes() { Hashes h; h.sample = [](const uint8_t *rho, int x, int y) { uint8_t m[34]; memcpy(m, rho, 32); m[32] = x; m[33] = y; Stream &s = xstream(m, 34); return sample_ntt_stream([&](size_t o) { return xbyte(s, o); }); };
  h.prf = [](const uint8_t *key, int nonce, size_t len) { uint8_t m[33]; memcpy(m, key, 32); m[32] = nonce; uint64_t hh = mix64(hash_bytes(m, 33) ^ PG.seed ^ 77); Bytes o(len); for (size_t i = 0; i < len; i++) o[i] = pbyte(hh, i); return o; }; return h; }
static void new_prog(Src &s) { PG = Prog(); PG.seed = s.draw(UINT64_MAX); PG.xmode = s.draw(9); PG.pmode = s.draw(8); }
static void labels(Ctx &c) { for (auto &k : PG.kinds) c.labels["entry stream: " + k.first] += k.second; }
static void same(Ctx &c, const Poly &g, const Poly &e, const std::string &w) { for (int i = 0; i < 256; i++) if (g[i] != e[i]) c.fail(w + strf(": coefficient %d is %u, specified %u", i, g[i], e[i])); }
static void cbd_case(Ctx &c, const KLib &l, bool eta1, const Bytes &b, const std::string &w) {
  const char *f = eta1 ? "poly_cbd_eta1" : "poly_cbd_eta2"; if (!l.find(f)) return; alignas(32) uint8_t buf[256]; memset(buf, 0x5A, sizeof buf); memcpy(buf, b.data(), b.size()); Po o; memset(o.c, 0x11, sizeof o.c); l.fn<void (*)(Po *, const void *)>(f)(&o, buf); const Params &K = params(l.k); Poly e = cbd(eta1 ? K.eta1 : K.eta2, b.data()); for (int i = 0; i < 256; i++) { int v = e[i] > 1664 ? e[i] - 3329 : e[i]; if (modq(o.c[i]) != e[i]) c.fail(l.name() + " " + f + " " + w + strf(": coefficient %d is %d, specified %d", i, o.c[i], v)); }
}
void define_check(Check &c, int tier) {
  c.id = "C13";
  c.rule = "The hash layer is replaced by one whose SHAKE128(seed||x||y) and SHAKE256(key||nonce) streams are programmed per case (accept/reject patterns around every block boundary, long rejected runs, arbitrary masks, extreme noise bytes); results are compared with the specification evaluated on the same streams. Non-trivial: some entry needs a rejected candidate skipped, or noise bytes not all zero.";
  c.assumptions = {"Streams are identified by their message (34 bytes for SHAKE128, 33 bytes for SHAKE256), as the standard prescribes; the real hash layer is the subject of C09/C10."};
  LB = load_all("stub"); for (auto &l : load_all("stubbmi")) LB.push_back(l); PLS = load_pl(LB); STD = load_all("std"); for (auto &l : load_all("bmi")) STD.push_back(l); if (STD.empty()) STD = LB;
  c.add("scheme_on_programmed_streams", 60000, 3000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); new_prog(s); Hashes h = prog_hashes(); int k = l.k; Bytes coins = gen_coins(s, 64), m = gen_coins(s, 32), pk(l.pk), sk(l.sk), ct(l.ct), ss(32), epk(l.pk), esk(l.sk), ect(l.ct), ess(32);
    l.keypair_derand(pk.data(), sk.data(), coins.data()); model::keypair(k, coins.data(), epk.data(), esk.data(), h); c.eq(pk, epk, l.name() + " public key"); c.eq(sk, esk, l.name() + " secret key");
    if (s.coin(1, 3)) { Bytes t = gen_poly_bytes(s, k, 4096); std::copy(t.begin(), t.end(), epk.begin()); Bytes r = gen_coins(s, 32); std::copy(r.begin(), r.end(), epk.end() - 32); pk = epk; }
    l.enc_derand(ct.data(), ss.data(), pk.data(), m.data()); model::enc(k, epk.data(), m.data(), ect.data(), ess.data(), h); c.eq(ct, ect, l.name() + " ciphertext"); c.eq(ss, ess, l.name() + " shared secret");
    if (s.coin(1, 3)) tamper(s, k, ct); l.dec(ss.data(), ct.data(), sk.data()); bool acc = model::dec(k, ct.data(), esk.data(), ess.data(), h); c.eq(ss, ess, l.name() + " decapsulated secret"); c.label(acc ? "accepted" : "rejected");
    labels(c); c.check(PG.xof_calls > 0 && PG.prf_calls > 0, "harness: the programmed streams were not used"); if (PG.maxoff > 504) c.label("streams longer than three blocks"); c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" stream mode %u/%u seed %016llx", PG.xmode, PG.pmode, (unsigned long long)PG.seed));
  }, true);
  c.add("matrix_entries", 150000, 8000000, [](Src &s, Ctx &c) {
    const PL &P = PLS[s.draw(PLS.size() - 1)]; if (!P.has({"gen_matrix"}) || P.perm.empty()) c.discard(); int k = P.l->k; new_prog(s); Hashes h = prog_hashes(); Bytes rho = gen_coins(s, 32); int tr = s.coin(1, 2); alignas(32) static thread_local uint8_t mem[4 * sizeof(Pv) + 64]; memset(mem, 0x77, sizeof mem); 
    P.l->fn<void (*)(void *, const uint8_t *, int)>("gen_matrix")(mem, rho.data(), tr); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { Po p; memcpy(p.c, mem + 512 * (i * k + j), 512); Poly e = tr ? h.sample(rho.data(), i, j) : h.sample(rho.data(), j, i); same(c, P.to_std(p), e, P.l->name() + strf(" gen_matrix(transposed=%d) row %d column %d", tr, i, j)); for (int t = 0; t < 256; t++) if (p.c[t] < 0 || p.c[t] >= 3329) c.fail(P.l->name() + strf(" gen_matrix(transposed=%d) row %d column %d holds %d", tr, i, j, p.c[t])); }
    for (int i = 512 * k * k; i < (int)sizeof mem; i++) if (mem[i] != 0x77) c.fail(P.l->name() + " gen_matrix writes past the matrix");
    labels(c); c.nontrivial(); if (c.sampling()) c.sample(P.l->name() + strf(" mode %u seed %016llx", PG.xmode, (unsigned long long)PG.seed));
  }, true);
  c.add("noise_polynomials", 250000, 10000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); const Params &K = params(l.k); new_prog(s); Hashes h = prog_hashes(); Bytes key = gen_coins(s, 32); uint8_t n[4]; for (auto &x : n) x = s.coin(1, 2) ? s.draw(255) : s.draw(9);
    struct F { const char *n; int e; } f1[] = {{"poly_getnoise_eta1", K.eta1}, {"poly_getnoise_eta2", K.eta2}}; auto cmp = [&](const char *f, const Po &o, int eta, int nonce) { Poly e = cbd(eta, h.prf(key.data(), nonce, 64 * eta).data()); same(c, canon(o), e, l.name() + " " + f + strf(" nonce %d", nonce)); };
    for (auto &f : f1) if (l.find(f.n)) { Po o; memset(o.c, 0x22, sizeof o.c); l.fn<void (*)(Po *, const uint8_t *, uint8_t)>(f.n)(&o, key.data(), n[0]); cmp(f.n, o, f.e, n[0]); }
    for (auto f : {"poly_getnoise_eta1_4x", "poly_getnoise_eta1122_4x"}) if (l.find(f)) { Po o[4]; memset(o, 0x22, sizeof o); l.fn<void (*)(Po *, Po *, Po *, Po *, const uint8_t *, uint8_t, uint8_t, uint8_t, uint8_t)>(f)(&o[0], &o[1], &o[2], &o[3], key.data(), n[0], n[1], n[2], n[3]); for (int i = 0; i < 4; i++) cmp(f, o[i], strstr(f, "1122") && i >= 2 ? K.eta2 : K.eta1, n[i]); }
    if (PG.pmode != 1) c.nontrivial(); c.label(strf("PRF mode %u", PG.pmode)); if (c.sampling()) c.sample(l.name() + strf(" mode %u", PG.pmode));
  }, true);
  static std::vector<const KLib *> RJ; for (auto &l : STD) if (l.find("rej_uniform_avx")) RJ.push_back(&l);
  if (!RJ.empty()) c.add("vector_rejection_kernel", 300000, 12000000, [](Src &s, Ctx &c) {
    const KLib &l = *RJ[s.draw(RJ.size() - 1)]; new_prog(s); PG.xmode = s.draw(9); uint8_t msg[34] = {0}; for (int i = 0; i < 8; i++) msg[i] = s.draw(255); Stream &st = xstream(msg, 34); alignas(32) uint8_t buf[504]; for (int i = 0; i < 504; i++) buf[i] = xbyte(st, i);
    std::vector<int> e; for (int i = 0; i < 336 && e.size() < 256; i++) { int v = cand_at(st, i); if (v < 3329) e.push_back(v); } alignas(32) int16_t o[256 + 32]; for (auto &x : o) x = 0x7abc; unsigned n = l.fn<unsigned (*)(int16_t *, const uint8_t *)>("rej_uniform_avx")(o, buf);
    if (n != e.size()) c.fail(l.name() + strf(" rej_uniform_avx accepted %u of %zu candidates", n, e.size())); for (unsigned i = 0; i < n; i++) if (o[i] != e[i]) c.fail(l.name() + strf(" rej_uniform_avx coefficient %u is %d, specified %d", i, o[i], e[i])); for (int i = 256; i < 288; i++) if (o[i] != 0x7abc) c.fail(l.name() + " rej_uniform_avx writes past 256 coefficients"); c.nontrivial(); c.label(st.kind); if (c.sampling()) c.sample(l.name() + " " + st.kind);
  }, true); else c.notes["rej_uniform_avx"] = "not present with the documented type";
  c.add_enum("noise_eta3_every_group_value", 1 << 18, [](Src &s, Ctx &c) { uint32_t i = s.draw(UINT64_MAX); for (auto &l : STD) { if (params(l.k).eta1 != 3) continue; Bytes b(192); for (uint32_t g = 0; g < 64; g++) { uint32_t v = i * 64 + (g + i * 7) % 64; b[3 * g] = v; b[3 * g + 1] = v >> 8; b[3 * g + 2] = v >> 16; } cbd_case(c, l, true, b, strf("24-bit groups from %u", i * 64)); } c.evals += 63; c.nontrivial(); });
  c.add_enum("noise_eta2_every_byte_pair_every_position", 65536, [](Src &s, Ctx &c) { uint32_t i = s.draw(UINT64_MAX); for (auto &l : STD) for (int e = 0; e < 2; e++) { if (e == 0 && params(l.k).eta1 != 2) continue; Bytes b(128); for (uint32_t g = 0; g < 64; g++) { uint32_t v = i + g * 1021; b[2 * g] = v; b[2 * g + 1] = v >> 8; } cbd_case(c, l, e == 0, b, strf("16-bit groups from %u", i)); } c.evals += 63; c.nontrivial(); });
}

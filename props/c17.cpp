// C17: the NIST test generator is the specified CTR_DRBG for any call sequence; the seed expander is the AES-256 counter stream.
#include "lib.hpp"
#include "model.hpp"
#include "hashgen.hpp"
#include <unistd.h>
// layouts and prototypes as documented in rng.h
struct Xof { unsigned char buffer[16]; int buffer_pos; unsigned long length_remaining; unsigned char key[32]; unsigned char ctr[16]; };
struct Rg { void *h; void (*init)(uint8_t *, uint8_t *, int); int (*rb)(uint8_t *, unsigned long long); int (*xinit)(Xof *, uint8_t *, uint8_t *, unsigned long); int (*x)(Xof *, uint8_t *, unsigned long); void (*upd)(uint8_t *, uint8_t *, uint8_t *); void (*ecb)(uint8_t *, uint8_t *, uint8_t *); };
static Rg G, S;
static bool load(Rg &g, const std::string &f) { g.h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!g.h) { fprintf(stderr, "%s\n", dlerror()); return false; } auto y = [&](const char *n) { return dlsym(g.h, n); }; *(void **)&g.init = y("randombytes_init"); *(void **)&g.rb = y("randombytes"); *(void **)&g.xinit = y("seedexpander_init"); *(void **)&g.x = y("seedexpander"); *(void **)&g.upd = y("AES256_CTR_DRBG_Update"); *(void **)&g.ecb = y("AES256_ECB"); return g.init && g.rb && g.xinit && g.x; }
// ---- a cheap block function instead of AES for requests too long to encrypt for real
#define VIS extern "C" __attribute__((visibility("default")))
static uint64_t blocks; static uint8_t *lastp;
VIS void *vf_EVP_CIPHER_CTX_new() { static int x; return &x; } VIS int vf_EVP_EncryptInit_ex(void *, void *, void *, const uint8_t *, const uint8_t *) { return 1; } VIS void *vf_EVP_aes_256_ecb() { static int x; return &x; } VIS void vf_EVP_CIPHER_CTX_free(void *) {}
VIS int vf_EVP_EncryptUpdate(void *, uint8_t *out, int *len, const uint8_t *in, int n) { uint64_t v; memcpy(&v, in + 8, 8); v = __builtin_bswap64(v); uint64_t a = v * 0x9E3779B97F4A7C15ull, b = a ^ v; memcpy(out, &a, 8); memcpy(out + 8, &b, 8); *len = 16; blocks++; return 1; }
static void wanted_state(uint8_t *entropy, const uint8_t *key, const uint8_t *v, const uint8_t *pers) { // entropy input leading to a chosen (Key, V)
  uint8_t z[32] = {0}, t[48]; for (int i = 0; i < 3; i++) { uint8_t b[16] = {0}; b[15] = i + 1; model::aes256_ecb(z, b, t + 16 * i); } memcpy(entropy, key, 32); memcpy(entropy + 32, v, 16); for (int i = 0; i < 48; i++) entropy[i] ^= t[i] ^ (pers ? pers[i] : 0);
}
static Bytes near_wrap(Src &s) { Bytes v = s.bytes(16, 1); unsigned n = s.draw(16); for (unsigned i = 0; i < n && i < 16; i++) v[15 - i] = 0xff; if (n) { unsigned back = s.draw(5); v[15] = 0xff - back; } return v; }
static size_t gen_req(Src &s) { switch (s.weighted({5, 5, 3, 1})) { case 0: return s.draw(70); case 1: { static const size_t e[] = {0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64}; return e[s.draw(11)]; } case 2: return 16 * s.draw(40) + s.draw(2); default: return s.draw(9000); } }
void define_check(Check &c, int tier) {
  c.id = "C17";
  c.rule = "Histories of initialisations (entropy inputs chosen also so that the counter block wraps at every byte), requests and expander calls, compared call by call with an independent AES-256/CTR_DRBG model. Non-trivial: at least one byte of output compared.";
  c.assumptions = {"A seed-expander request of exactly the remaining length may be served or refused (the shipped code refuses it); whichever happens must be consistent.", "Requests of 2^31 bytes and more use a cheap stand-in for the AES block to stay affordable."};
  std::string d = envs("VF_KAT", ""); if (!load(G, d + "/rng.so")) exit(2); bool stub = load(S, d + "/rng_stub.so");
  c.add("drbg_histories", 250000, 20000000, [](Src &s, Ctx &c) {
    model::CtrDrbg m; unsigned n = 1 + s.draw(9); std::string log; size_t out = 0; bool inited = false;
    for (unsigned i = 0; i < n; i++) {
      if (!inited || s.coin(1, 4)) { Bytes e = s.bytes(48, 2), p = s.bytes(48, 2); bool hp = s.coin(1, 2); if (s.coin(1, 2)) { Bytes key = s.bytes(32, 1), v = near_wrap(s); wanted_state(e.data(), key.data(), v.data(), hp ? p.data() : nullptr); log += "init(chosen V " + hex(v) + ") "; } else log += hp ? "init(pers) " : "init "; Bytes e0 = e, p0 = p; static const int ss[] = {256, 128, 192, 0, -1}; G.init(e.data(), hp ? p.data() : nullptr, ss[s.draw(4)]); c.eq(e, e0, "entropy input changed by randombytes_init"); c.eq(p, p0, "personalization string changed by randombytes_init"); m.init(e.data(), hp ? p.data() : nullptr); inited = true; }
      size_t k = gen_req(s); Out o(s.draw(3), k); log += strf("get(%zu) ", k); int r = G.rb(o.p(), k); c.check(r == 0, strf("randombytes(%zu) returns %d after ", k, r) + log); Bytes e(k); m.generate(e.data(), k); c.eq(o.get(), e, "output of " + log); c.check(o.intact(), "bytes outside the buffer were written by " + log); out += k; }
    if (out) c.nontrivial(); if (c.sampling()) c.sample(log);
  });
  if (G.upd && G.ecb) c.add("update_and_block", 60000, 4000000, [](Src &s, Ctx &c) {
    Bytes key = s.bytes(32, 2), v = near_wrap(s), p = s.bytes(48, 2), k0 = key, p0 = p; bool hp = s.coin(2, 3); Bytes o(16 + 16, 0xC7); G.ecb(key.data(), v.data(), o.data()); Bytes e(16); model::aes256_ecb(key.data(), v.data(), e.data()); c.eq(o.data(), e.data(), 16, "AES-256 block, key " + hex(key)); for (int i = 16; i < 32; i++) c.check(o[i] == 0xC7, "AES256_ECB writes past its block"); c.eq(key, k0, "key changed by AES256_ECB");
    model::CtrDrbg m; memcpy(m.key, key.data(), 32); memcpy(m.v, v.data(), 16); m.update(hp ? p.data() : nullptr); G.upd(hp ? p.data() : nullptr, key.data(), v.data()); c.eq(key.data(), m.key, 32, "key after update"); c.eq(v.data(), m.v, 16, "V after update"); c.eq(p, p0, "provided data changed"); c.nontrivial(); if (c.sampling()) c.sample("key " + hex(k0));
  });
  c.add("seed_expander_histories", 80000, 20000000, [](Src &s, Ctx &c) {
    Xof x; memset(&x, 0x99, sizeof x); Bytes seed = s.bytes(32, 2), div = s.bytes(8, 2); static const uint64_t e[] = {0, 1, 15, 16, 17, 255, 256, 65535, 65536, 1ull << 24, 0xffffffff, 0xfffffffe, 1ull << 32, (1ull << 32) + 1, 1ull << 40, UINT64_MAX}; uint64_t maxlen = s.coin(1, 3) ? e[s.draw(15)] : s.coin(1, 2) ? s.draw(3000) : s.draw(0xffffffff); Bytes s0 = seed, d0 = div; 
    int r = G.xinit(&x, seed.data(), div.data(), maxlen); c.eq(seed, s0, "seed changed"); c.eq(div, d0, "diversifier changed"); std::string log = strf("maxlen %llu: ", (unsigned long long)maxlen);
    if (maxlen >= 1ull << 32) { c.check(r == -1, log + strf("returns %d instead of RNG_BAD_MAXLEN", r)); c.nontrivial(); c.label("bad maxlen"); return; } c.check(r == 0, log + strf("init returns %d", r));
    Bytes ctr(16); memcpy(ctr.data(), div.data(), 8); for (int i = 0; i < 4; i++) ctr[8 + i] = maxlen >> 8 * (3 - i); Bytes ks; uint32_t cnt = 0; uint64_t rem = maxlen; size_t used = 0; unsigned n = 1 + s.draw(11); 
    for (unsigned i = 0; i < n; i++) { if (s.coin(1, 12)) { int q = G.x(&x, nullptr, s.coin(1, 2) ? 0 : s.draw(100)); log += "null "; c.check(q == -2, log + strf("returns %d instead of RNG_BAD_OUTBUF", q)); c.label("null output"); continue; }
      uint64_t k; switch (s.weighted({6, 1, 1, 1, 1})) { case 0: k = gen_req(s); break; case 1: k = rem; break; case 2: k = rem + 1 + s.draw(100); break; case 3: k = rem ? rem - 1 : 0; break; default: k = rem + s.draw(UINT64_MAX / 4); } bool toolong = k > rem, exact = k == rem; uint64_t lim = s.coin(1, 60) ? 20000 : 1500; if (!toolong && k > lim) k = lim, exact = k == rem; size_t cap = toolong || exact ? std::min<uint64_t>(k, 20000) : k; if (exact && k > 20000) continue; Out o(s.draw(3), cap); log += strf("get(%llu) ", (unsigned long long)k); int q = G.x(&x, o.p(), k); c.check(o.intact(), log + "writes outside the buffer");
      if (toolong || (exact && q != 0)) { c.check(q == -3, log + strf("returns %d instead of RNG_BAD_REQ_LEN", q)); for (uint8_t b : o.get()) c.check(b == 0xC7, log + "refused request produced output"); c.label(exact ? "exact remainder refused" : "too long"); continue; }
      c.check(q == 0, log + strf("returns %d", q)); while (ks.size() < used + k) { Bytes b(16), cc = ctr; for (int j = 0; j < 4; j++) cc[12 + j] = cnt >> 8 * (3 - j); model::aes256_ecb(seed.data(), cc.data(), b.data()); cnt++; ks.insert(ks.end(), b.begin(), b.end()); } c.eq(o.get(), Bytes(ks.begin() + used, ks.begin() + used + k), "output of " + log); used += k; rem -= k; }
    if (used) c.nontrivial(); if (c.sampling()) c.sample(log);
  });
  c.add("interleaved_generator_and_expanders", 60000, 4000000, [](Src &s, Ctx &c) { // several expander states and the generator do not disturb each other
    struct St { Xof x; Bytes seed, ctr, ks; uint32_t cnt = 0; size_t used = 0; }; std::vector<St> st(1 + s.draw(2)); for (auto &t : st) { t.seed = s.bytes(32, 1); Bytes d = s.bytes(8, 1); uint32_t ml = 4000000; G.xinit(&t.x, t.seed.data(), d.data(), ml); t.ctr.assign(16, 0); memcpy(t.ctr.data(), d.data(), 8); for (int i = 0; i < 4; i++) t.ctr[8 + i] = ml >> 8 * (3 - i); }
    model::CtrDrbg m; Bytes e = s.bytes(48, 1); G.init(e.data(), nullptr, 256); m.init(e.data(), nullptr); unsigned n = 2 + s.draw(14); for (unsigned i = 0; i < n; i++) { size_t k = gen_req(s); Bytes o(k + 1, 0xC7), w(k + 1, 0xC7); if (s.coin(1, 3)) { G.rb(o.data(), k); m.generate(w.data(), k); c.eq(o, w, strf("generator request %u", i)); } else { St &t = st[s.draw(st.size() - 1)]; if (s.coin(1, 6)) { St copy = t; G.x(&copy.x, o.data(), k); } /* a copied state does not advance the original */ int q = G.x(&t.x, o.data(), k); c.check(q == 0, strf("expander request %u returns %d", i, q)); while (t.ks.size() < t.used + k) { Bytes b(16), cc = t.ctr; for (int j = 0; j < 4; j++) cc[12 + j] = t.cnt >> 8 * (3 - j); model::aes256_ecb(t.seed.data(), cc.data(), b.data()); t.cnt++; t.ks.insert(t.ks.end(), b.begin(), b.end()); } memcpy(w.data(), t.ks.data() + t.used, k); c.eq(o, w, strf("expander request %u", i)); t.used += k; } }
    c.nontrivial();
  });
  if (stub) { c.add_enum("very_long_requests", 4, [](Src &s, Ctx &c) {
    static const uint64_t L[] = {(1ull << 31) + 48, (1ull << 32) + 16, (1ull << 31) - 16 + 5, (1ull << 25) + 7}; uint64_t n = L[s.draw(3)]; const uint64_t G2 = 64u << 20; static Tiled *t = nullptr; if (!t) t = new Tiled((1ull << 32) + (192u << 20)); if (!t->p) { c.label("no address space: skipped"); return; } uint8_t *p = t->p + G2; Bytes e(48, 7); S.init(e.data(), nullptr, 256); 
    // guard: everything below p belongs to the same mapping, so writes before the buffer land in a page we can see: remap the prefix separately
    static uint8_t *pre = nullptr; if (!pre) { pre = (uint8_t *)mmap(t->p, G2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); } blocks = 0; int r = S.rb(p, n); c.check(r == 0, strf("request of %llu bytes returns %d", (unsigned long long)n, r)); uint64_t nb = (n + 15) / 16 + 3; c.check(blocks == nb, strf("request of %llu bytes encrypts %llu blocks instead of %llu", (unsigned long long)n, (unsigned long long)blocks, (unsigned long long)nb));
    // the last bytes hold the last blocks of the counter stream
    uint64_t nblk = (n + 15) / 16; uint8_t v0[16]; model::CtrDrbg dummy; (void)dummy; uint8_t *q = p + (nblk - 1) * 16; unsigned last = n - (nblk - 1) * 16; uint64_t a1, b1; memcpy(&a1, q - 16, 8); memcpy(&b1, q - 8, 8); uint64_t va = a1 ^ b1; uint64_t a2 = (va + 1) * 0x9E3779B97F4A7C15ull, b2 = a2 ^ (va + 1); uint8_t want[16]; memcpy(want, &a2, 8); memcpy(want + 8, &b2, 8); c.check(a1 == va * 0x9E3779B97F4A7C15ull && !memcmp(q, want, last), strf("request of %llu bytes: the end of the buffer does not hold the end of the stream", (unsigned long long)n)); c.nontrivial(); c.label(strf("%llu bytes", (unsigned long long)n)); if (c.sampling()) c.sample(strf("%llu bytes", (unsigned long long)n)); }); c.last().cpu = 300; c.last().isolate = true; }
  // expansions long enough to carry into every byte of the block counter
  if (stub) { c.add("very_long_expansions", 40, 400, [tier](Src &s, Ctx &c) {
    static const uint64_t L[] = {1ull << 20, 1ull << 28, 3ull << 28, 1ull << 31, (1ull << 32) - 1}; uint64_t top = L[s.draw(tier ? 4 : 3)], maxlen = std::min<uint64_t>((1ull << 32) - 1, top + 1 + s.draw(100000)); static Tiled *t = nullptr; if (!t) t = new Tiled((1ull << 32) + (8u << 20)); if (!t->p) { c.label("no address space: skipped"); return; }
    Xof x; memset(&x, 0x99, sizeof x); Bytes seed(32, 3), div(8, 5); c.check(S.xinit(&x, seed.data(), div.data(), maxlen) == 0, "init refused"); uint64_t used = 0; std::string log = strf("maxlen %llu:", (unsigned long long)maxlen); unsigned n = 1 + s.draw(5);
    for (unsigned i = 0; i <= n && used + 1 < maxlen; i++) { uint64_t k; switch (s.draw(2)) { case 0: k = 1 + s.draw(70); break; case 1: k = s.draw(maxlen - used - 1); break; default: { uint64_t e = L[s.draw(4)]; k = e > used ? e - used + s.draw(40) : s.draw(100); } } if (i == n) k = maxlen - used - 1; if (k >= maxlen - used) k = maxlen - used - 1; log += strf(" %llu", (unsigned long long)k); unsigned off = s.draw(15); uint8_t *p = t->p + off; int r = S.x(&x, p, k); c.check(r == 0, log + strf(": returns %d", r)); used += k;
      uint64_t chk = std::min<uint64_t>(k, 1u << 20), pos = used - chk; uint8_t *q = p + (k - chk); for (uint64_t j = 0; j < chk; j++, pos++) { uint64_t v = maxlen << 32 | (uint32_t)(pos / 16), a = v * 0x9E3779B97F4A7C15ull, b = a ^ v; unsigned m = pos % 16; uint8_t w = m < 8 ? a >> 8 * m : b >> 8 * (m - 8); if (q[j] != w) c.fail(log + strf(": byte %llu of the stream is wrong", (unsigned long long)pos)); } }
    int r = S.x(&x, t->p, 2); c.check(r == -3, log + strf(": a request beyond the limit returns %d", r)); c.nontrivial(); if (c.sampling()) c.sample(log);
  }); c.last().cpu = 300; }
}

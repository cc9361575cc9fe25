// C12: serialisation and compression are exact for every coefficient value at every position.
#include "polylib.hpp"
DEFINE_RANDOMBYTES
using namespace model;
static std::vector<KLib> LB; static std::vector<PL> PLS;
static std::vector<int16_t> VAL;    // any int16 is fed through poly_reduce
typedef std::function<int(int)> At;
// fills: 0 constant, 1.. ramps with the given stride, so that over all start values each position meets every value
static const int STRIDE[] = {0, 1, 257, 3331, -1};
static Po mk(const At &f) { Po p; for (int i = 0; i < 256; i++) p.c[i] = (int16_t)f(i); return p; }
static void vals(Ctx &c, const PL &P, const At &x, bool reduce, const std::string &w);
static void one_poly(Ctx &c, const PL &P, Po p, bool reduce, const std::string &w) {
  const Params &K = params(P.l->k); Poly x = canon(p); std::string n = P.l->name() + " " + w; 
  if (reduce) { if (!P.has({"poly_reduce"})) return; P.v1("poly_reduce", p); Poly y = canon(p); for (int i = 0; i < 256; i++) if (x[i] != y[i]) c.fail(n + strf(": poly_reduce changed coefficient %d to another residue", i)); }
  if (P.has({"poly_compress"})) { Po q = p; Bytes o(32 * K.dv + 64, 0xC9); P.tob("poly_compress", o.data(), q); std::vector<uint16_t> e(256); for (int i = 0; i < 256; i++) e[i] = compress(K.dv, x[i]); Bytes eb = byte_encode(K.dv, e);
    for (int i = 0; i < 256; i++) { uint16_t g = byte_decode(K.dv, o.data(), eb.size())[i]; if (g != e[i]) c.fail(n + strf(": poly_compress of %d (coefficient %d holding %d) gave %u, expected %u", x[i], i, p.c[i], g, e[i])); if (i == 0 && !memcmp(o.data(), eb.data(), eb.size())) break; }
    if (P.has({"poly_decompress"})) { Po d; o.resize(o.size() + 32); P.fromb("poly_decompress", d, o.data()); int bound = (3329 + (1 << K.dv)) / (2 << K.dv); for (int i = 0; i < 256; i++) { int v = modq(d.c[i]), df = modq(v - x[i]); if (df > 1664) df = 3329 - df; if (v != decompress(K.dv, e[i]) || df > bound) c.fail(n + strf(": decompress(compress(%d)) at coefficient %d gave %d", x[i], i, v)); }
      Bytes o2(32 * K.dv + 64); P.tob("poly_compress", o2.data(), d); c.eq(o2.data(), o.data(), eb.size(), n + ": compressing the decompressed polynomial"); } }
  if (P.has({"poly_tomsg"})) { uint8_t m[64]; P.tob("poly_tomsg", m, p); for (int i = 0; i < 256; i++) { int b = m[i / 8] >> (i % 8) & 1, e = compress(1, x[i]); if (b != e) c.fail(n + strf(": poly_tomsg decodes %d (coefficient %d) to %d", x[i], i, b)); } }
  if (P.has({"poly_tobytes", "poly_frombytes"}) && !P.perm.empty()) { Bytes o(384 + 64); P.tob("poly_tobytes", o.data(), p); Poly st(256); for (int i = 0; i < 256; i++) st[P.perm[i]] = x[i]; Bytes e = byte_encode(12, st); c.eq(o.data(), e.data(), 384, n + ": poly_tobytes"); Po b; P.fromb("poly_frombytes", b, o.data()); for (int i = 0; i < 256; i++) if (b.c[i] != x[i]) c.fail(n + strf(": poly_frombytes(poly_tobytes) coefficient %d: %d instead of %d", i, b.c[i], x[i])); }
}
static void one_vec(Ctx &c, const PL &P, Pv p, bool reduce, const std::string &w) {
  int k = P.l->k; const Params &K = params(k); std::vector<uint16_t> x(256 * k), e(256 * k); for (int i = 0; i < 256 * k; i++) x[i] = modq(p.c[i / 256][i % 256]), e[i] = compress(K.du, x[i]); std::string n = P.l->name() + " " + w;
  if (reduce) { if (!P.has({"polyvec_reduce"})) return; P.w1("polyvec_reduce", p); for (int i = 0; i < 256 * k; i++) if (modq(p.c[i / 256][i % 256]) != x[i]) c.fail(n + strf(": polyvec_reduce changed coefficient %d to another residue", i)); }
  if (P.has({"polyvec_compress"})) { size_t L = 32 * K.du * k; Bytes o(L + 96, 0xC9), eb = byte_encode(K.du, e); P.l->fn<void (*)(uint8_t *, const Pv *)>("polyvec_compress")(o.data(), &p);
    if (memcmp(o.data(), eb.data(), L)) { auto g = byte_decode(K.du, o.data(), L); for (int i = 0; i < 256 * k; i++) if (g[i] != e[i]) c.fail(n + strf(": polyvec_compress of %d (vector %d, coefficient %d holding %d) gave %u, expected %u", x[i], i / 256, i % 256, p.c[i / 256][i % 256], g[i], e[i])); }
    if (P.has({"polyvec_decompress"})) { Pv d; P.l->fn<void (*)(Pv *, const uint8_t *)>("polyvec_decompress")(&d, o.data()); int bound = (3329 + (1 << K.du)) / (2 << K.du); for (int i = 0; i < 256 * k; i++) { int v = modq(d.c[i / 256][i % 256]), df = modq(v - (int)x[i]); if (df > 1664) df = 3329 - df; if (v != decompress(K.du, e[i]) || df > bound) c.fail(n + strf(": decompress(compress(%d)) at vector %d coefficient %d gave %d", x[i], i / 256, i % 256, v)); }
      Bytes o2(L + 96); P.l->fn<void (*)(uint8_t *, const Pv *)>("polyvec_compress")(o2.data(), &d); c.eq(o2.data(), o.data(), L, n + ": compressing the decompressed vector"); } }
  if (P.has({"polyvec_tobytes", "polyvec_frombytes"}) && !P.perm.empty()) { Bytes o(384 * k + 64); P.l->fn<void (*)(uint8_t *, const Pv *)>("polyvec_tobytes")(o.data(), &p); std::vector<uint16_t> st(256 * k); for (int i = 0; i < 256 * k; i++) st[i / 256 * 256 + P.perm[i % 256]] = x[i]; Bytes eb = byte_encode(12, st); c.eq(o.data(), eb.data(), 384 * k, n + ": polyvec_tobytes"); Pv b; P.l->fn<void (*)(Pv *, const uint8_t *)>("polyvec_frombytes")(&b, o.data()); for (int i = 0; i < 256 * k; i++) if (b.c[i / 256][i % 256] != x[i]) c.fail(n + strf(": polyvec_frombytes(tobytes) vector %d coefficient %d", i / 256, i % 256)); }
}
// compressed or packed strings -> decoding
static void decode_poly(Ctx &c, const PL &P, const At &y, const std::string &w) {
  const Params &K = params(P.l->k); std::string n = P.l->name() + " " + w;
  if (P.has({"poly_decompress", "poly_compress"})) { std::vector<uint16_t> v(256); for (int i = 0; i < 256; i++) v[i] = y(i) & ((1 << K.dv) - 1); Bytes b = byte_encode(K.dv, v); size_t L = b.size(); b.resize(L + 64, 0xD5); Po d; P.fromb("poly_decompress", d, b.data()); for (int i = 0; i < 256; i++) if (modq(d.c[i]) != decompress(K.dv, v[i])) c.fail(n + strf(": poly_decompress of %u at coefficient %d gave %d", v[i], i, d.c[i])); Bytes o(L + 64); P.tob("poly_compress", o.data(), d); c.eq(o.data(), b.data(), L, n + ": compress(decompress)"); }
  if (P.has({"poly_frombytes"}) && !P.perm.empty()) { std::vector<uint16_t> v(256); for (int i = 0; i < 256; i++) v[i] = y(i) & 4095; Bytes b = byte_encode(12, v); b.resize(384 + 64, 0x5D); Po d; P.fromb("poly_frombytes", d, b.data()); for (int i = 0; i < 256; i++) if (d.c[i] != v[P.perm[i]]) { if (modq(d.c[i]) != modq(v[P.perm[i]])) c.fail(n + strf(": poly_frombytes of %u at coefficient %d gave %d", v[P.perm[i]], P.perm[i], d.c[i])); else if (d.c[i] < 0 || d.c[i] >= 3329) c.fail(n + strf(": poly_frombytes of %u gave %d", v[P.perm[i]], d.c[i])); } }
  if (P.has({"poly_frommsg", "poly_tomsg"})) { uint8_t m[64], m2[64]; for (int i = 0; i < 32; i++) m[i] = y(8 * i) ^ y(8 * i + 3) >> 3; Po d; P.fromb("poly_frommsg", d, m); for (int i = 0; i < 256; i++) if (modq(d.c[i]) != (m[i / 8] >> (i % 8) & 1 ? 1665 : 0)) c.fail(n + strf(": poly_frommsg bit %d gave coefficient %d", i, d.c[i])); if (P.has({"poly_reduce"})) P.v1("poly_reduce", d); P.tob("poly_tomsg", m2, d); c.eq(m2, m, 32, n + ": tomsg(frommsg)"); }
}
static void decode_vec(Ctx &c, const PL &P, const At &y, const std::string &w) {
  int k = P.l->k; const Params &K = params(k); std::string n = P.l->name() + " " + w; std::vector<uint16_t> v(256 * k);
  if (P.has({"polyvec_decompress", "polyvec_compress"})) { for (int i = 0; i < 256 * k; i++) v[i] = y(i) & ((1 << K.du) - 1); Bytes b = byte_encode(K.du, v); size_t L = b.size(); b.resize(L + 64, 0xD5); Pv d; P.l->fn<void (*)(Pv *, const uint8_t *)>("polyvec_decompress")(&d, b.data()); for (int i = 0; i < 256 * k; i++) if (modq(d.c[i / 256][i % 256]) != decompress(K.du, v[i])) c.fail(n + strf(": polyvec_decompress of %u at vector %d coefficient %d gave %d", v[i], i / 256, i % 256, d.c[i / 256][i % 256])); Bytes o(L + 96); P.l->fn<void (*)(uint8_t *, const Pv *)>("polyvec_compress")(o.data(), &d); c.eq(o.data(), b.data(), L, n + ": compress(decompress)"); }
  if (P.has({"polyvec_frombytes"}) && !P.perm.empty()) { for (int i = 0; i < 256 * k; i++) v[i] = y(i) & 4095; Bytes b = byte_encode(12, v); b.resize(384 * k + 64, 0x5D); Pv d; P.l->fn<void (*)(Pv *, const uint8_t *)>("polyvec_frombytes")(&d, b.data()); for (int i = 0; i < 256 * k; i++) if (modq(d.c[i / 256][i % 256]) != modq(v[i / 256 * 256 + P.perm[i % 256]])) c.fail(n + strf(": polyvec_frombytes vector %d coefficient %d", i / 256, P.perm[i % 256])); }
}
void define_check(Check &c, int tier) {
  c.id = "C12";
  c.rule = "Exhaustive: each 16-bit coefficient value (through poly_reduce) and each canonical value at each position and vector index with several neighbourhoods; each compressed and each 12-bit value at each position; plus generated polynomials and messages. Non-trivial: every case.";
  c.assumptions.push_back("Compression, message decoding and packing are applied to outputs of poly_reduce/polyvec_reduce or to canonical coefficients, as the callers do.");
  LB = load_all("std"); PLS = load_pl(LB);
  c.add_enum("poly_every_value", (65536 + 3329) * 2, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); int pat = i & 1; i >>= 1; bool red = i < 65536; int v = red ? (int16_t)(uint16_t)i : (int)(i - 65536);
    for (auto &P : PLS) { int st = pat ? STRIDE[1 + v % 4 * (v > 0)] : 0; Po p = mk([&](int j) { int x = v + st * j; return red ? (int)(int16_t)(uint16_t)x : ((x % 3329) + 3329) % 3329; }); one_poly(c, P, p, red, strf("value %d%s%s", v, pat ? " ramp" : "", red ? "" : " (canonical)")); }
    c.evals += PLS.size() - 1; c.nontrivial(); if (c.sampling()) c.sample(strf("value %d pattern %d", v, pat));
  });
  c.add_enum("vector_every_value", (65536 + 3329) * 2, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); int pat = i & 1; i >>= 1; bool red = i < 65536; int v = red ? (int16_t)(uint16_t)i : (int)(i - 65536);
    for (auto &P : PLS) { int st = pat ? STRIDE[1 + v % 4 * (v > 0)] : 0; Pv p; for (int j = 0; j < 1024; j++) { int x = v + st * j; p.c[j / 256][j % 256] = red ? (int16_t)(uint16_t)x : ((x % 3329) + 3329) % 3329; } one_vec(c, P, p, red, strf("value %d%s%s", v, pat ? " ramp" : "", red ? "" : " (canonical)")); }
    c.evals += PLS.size() - 1; c.nontrivial(); if (c.sampling()) c.sample(strf("value %d pattern %d", v, pat));
  });
  c.add_enum("decode_every_value", 4096 * 4, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); int v = i & 4095, st = STRIDE[i >> 12 & 3]; for (auto &P : PLS) { decode_poly(c, P, [&](int j) { return v + st * j; }, strf("packed value %d stride %d", v, st)); decode_vec(c, P, [&](int j) { return v + st * j; }, strf("packed value %d stride %d", v, st)); }
    c.evals += 2 * PLS.size() - 1; c.nontrivial(); if (c.sampling()) c.sample(strf("packed value %d stride %d", v, st));
  });
  c.add_enum("message_bits", 256 * 2 + 256 * 32, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); uint8_t m[32 + 32]; memset(m, 0, 64); if (i < 256) m[i / 8] = 1 << i % 8; else if (i < 512) { memset(m, 0xff, 32); m[(i - 256) / 8] ^= 1 << i % 8; } else { i -= 512; m[i / 256] = i % 256; }
    for (auto &P : PLS) if (P.has({"poly_frommsg", "poly_tomsg"})) { Po d; P.fromb("poly_frommsg", d, m); for (int j = 0; j < 256; j++) if (modq(d.c[j]) != (m[j / 8] >> (j % 8) & 1 ? 1665 : 0)) c.fail(P.l->name() + strf(": poly_frommsg bit %d gave coefficient %d", j, d.c[j])); uint8_t o[64]; P.tob("poly_tomsg", o, d); c.eq(o, m, 32, P.l->name() + ": tomsg(frommsg)"); }
    c.nontrivial(); if (c.sampling()) c.sample(hex(m, 32));
  });
  c.add("generated_polynomials", 300000, 20000000, [](Src &s, Ctx &c) {
    const PL &P = PLS[s.draw(PLS.size() - 1)]; bool red = s.coin(1, 2); auto gen = [&](int16_t *o) { if (!red) { auto v = gen_coeffs(s, 3329); for (int i = 0; i < 256; i++) o[i] = v[i]; } else { auto v = gen_coeffs(s, 65535); for (int i = 0; i < 256; i++) o[i] = (int16_t)v[i]; if (s.coin(1, 2)) { // values near rounding boundaries
      const Params &K = params(P.l->k); int d = s.coin(1, 2) ? K.du : K.dv; if (s.coin(1, 4)) d = 1; Rng r(s.draw(UINT64_MAX)); for (int i = 0; i < 256; i++) { int y = r.next() & ((1 << d) - 1); int x = (int)(((2 * y + 1) * 3329LL) >> (d + 1)) + (int)(r.next() % 3) - 1; o[i] = (int16_t)(x - (r.next() & 1 ? 3329 : 0)); } } } };
    switch (s.draw(2)) {
      case 0: { Po p; gen(p.c); one_poly(c, P, p, red, "generated polynomial"); break; }
      case 1: { Pv p; memset(&p, 0, sizeof p); for (int i = 0; i < P.l->k; i++) gen(p.c[i]); one_vec(c, P, p, red, "generated vector"); break; }
      default: { Bytes b = s.bytes(2048, 2); auto y = [&](int j) { return b[2 * (j & 1023)] | b[2 * (j & 1023) + 1] << 8; }; decode_poly(c, P, y, "generated string"); decode_vec(c, P, y, "generated string"); } }
    c.nontrivial(); if (c.sampling()) c.sample(P.l->name());
  }, true);
}

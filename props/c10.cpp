// C10: each lane of the four-way SHAKE / Keccak state functions equals the single-lane definition.
#include "hashgen.hpp"
#include "places.hpp"
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
typedef void (*x4_t)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
typedef void (*ab4_t)(void *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
typedef void (*sq4_t)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, void *);
struct Quad { std::vector<Bytes> buf; std::vector<size_t> off; size_t n; uint8_t *p(int i) { return buf[i].data() + off[i]; } };
static Quad gen_quad(Src &s, size_t n) {
  Quad q; q.n = n; Bytes base = s.bytes(n, 2);
  for (int i = 0; i < 4; i++) {
    Bytes m = base; switch (s.weighted({3, 3, 2})) { case 0: if (n) m[s.draw(n - 1)] ^= 1 + s.draw(254); break; case 1: m = s.bytes(n, 2); break; default:; }
    size_t o = s.draw(31); Bytes b(o + n + 16, 0); memcpy(b.data() + o, m.data(), n); q.buf.push_back(b); q.off.push_back(o);
  }
  return q;
}
static Bytes lane(Quad &q, int i) { return Bytes(q.p(i), q.p(i) + q.n); }
struct alignas(32) State { uint8_t b[1024]; };
static void x4_case(Ctx &c, const KLib &l, int bits, Quad &q, size_t outlen, const std::vector<size_t> &oo, const std::string &w) {
  x4_t f = l.fn<x4_t>(bits == 128 ? "shake128x4" : "shake256x4"); if (!f) { c.label("absent: four-way one-shot"); return; }
  Out o0(oo[0], outlen), o1(oo[1], outlen), o2(oo[2], outlen), o3(oo[3], outlen); auto save = q.buf;
  f(o0.p(), o1.p(), o2.p(), o3.p(), outlen, q.p(0), q.p(1), q.p(2), q.p(3), q.n); Out *O[] = {&o0, &o1, &o2, &o3};
  for (int i = 0; i < 4; i++) { c.eq(O[i]->get(), model::shake(bits, lane(q, i), outlen), w + strf(" lane %d", i)); c.check(O[i]->intact(), w + strf(" lane %d: wrote outside its output", i)); }
  c.check(save == q.buf, w + ": changed its input");
}
void define_check(Check &c, int tier) {
  c.id = "C10";
  c.rule = "Four messages (related or unrelated) of equal generated length; every lane is compared with the single-lane model. State functions: generated operation sequences over a 4x200-byte model. Non-trivial: lanes differ, or the sequence contains a permutation and a partial-lane access.";
  c.assumptions.push_back("FastLoop: laneOffsetSerial <= 3*laneOffsetParallel+laneCount (true of every XKCP caller; the loop subtracts it unchecked).");
  LB.clear(); for (auto &l : load_all("std", "avx2")) if (l.k == 2) LB.push_back(l);
  c.add_enum("x4_every_length", 2 * 700, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); int bits = i % 2 ? 256 : 128; size_t n = i / 2; if (n >= 700) return; Quad q; q.n = n; Rng r(n + 1);
    for (int k = 0; k < 4; k++) { size_t o = (n + k) % 8; Bytes b(o + n + 16); for (auto &x : b) x = r.next(); q.buf.push_back(b); q.off.push_back(o); }
    for (size_t ol : {(size_t)32, n, (size_t)337}) x4_case(c, LB[0], bits, q, ol, {0, n % 4, 5, 7}, strf("shake%dx4 of %zu bytes, %zu output bytes", bits, n, ol));
    c.nontrivial(); c.sample(strf("length %zu", n));
  });
  c.add("x4_oneshot", 3000000, 30000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); int bits = s.coin(1, 2) ? 256 : 128; size_t R = bits == 128 ? 168 : 136; size_t n = gen_len(s, R, 1024), o = gen_len(s, R, 1024); Quad q = gen_quad(s, n);
    std::vector<size_t> oo; for (int i = 0; i < 4; i++) oo.push_back(s.draw(15));
    x4_case(c, l, bits, q, o, oo, strf("shake%dx4 of %zu bytes, %zu output bytes", bits, n, o)); if (n % 8) c.label("length not a multiple of 8"); if (o % R) c.label("partial last output block"); if (n >= R) c.label("several input blocks"); c.nontrivial(); if (c.sampling()) c.sample(strf("shake%dx4 %zu -> %zu", bits, n, o));
  }, true);
  // the four inputs and outputs far apart from each other, or (inputs) the same
  c.add("x4_far_lanes", 400000, 6000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); int bits = s.coin(1, 2) ? 256 : 128; size_t R = bits == 128 ? 168 : 136, n = gen_len(s, R, 600), o = gen_len(s, R, 600); Placer P(s); Bytes m[4]; uint8_t *in[4], *out[4];
    bool inc = s.coin(1, 3); if (inc) o = o / R * R + R; std::string p = bits == 128 ? "shake128x4" : "shake256x4"; x4_t f = l.fn<x4_t>(p.c_str()); auto ab = l.fn<ab4_t>((p + "_absorb_once").c_str()); auto sq = l.fn<sq4_t>((p + "_squeezeblocks").c_str()); if (inc ? !ab || !sq : !f) c.discard();
    for (int i = 0; i < 4; i++) { if (i && s.coin(1, 6)) { int j = s.draw(i - 1); in[i] = in[j]; m[i] = m[j]; continue; } m[i] = s.bytes(n, 1); in[i] = P.put(m[i]); }
    for (int i = 0; i < 4; i++) out[i] = P.get(o);
    State st; memset(&st, 0x7E, sizeof st); if (inc) { ab(&st, in[0], in[1], in[2], in[3], n); size_t nb = o / R, a = s.draw(nb); sq(out[0], out[1], out[2], out[3], a, &st); sq(out[0] + a * R, out[1] + a * R, out[2] + a * R, out[3] + a * R, nb - a, &st); } else f(out[0], out[1], out[2], out[3], o, in[0], in[1], in[2], in[3], n);
    std::string w = p + strf("%s of %zu bytes, %zu output bytes at ", inc ? " (incremental)" : "", n, o) + P.log; for (int i = 0; i < 4; i++) if (o) c.eq(out[i], model::shake(bits, m[i], o).data(), o, w + strf(", lane %d", i)); P.verify(c, w); c.nontrivial(); if (c.sampling()) c.sample(w);
  });
  c.add("x4_incremental", 1000000, 20000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); size_t ns = 1 + s.draw(1); struct T { State st; int bits; std::vector<model::Sponge> m; bool live = false; }; std::vector<T> S(ns); std::string log;
    for (auto &t : S) { memset(t.st.b, s.draw(255), sizeof t.st.b); t.bits = s.coin(1, 2) ? 256 : 128; }
    size_t ops = 2 + s.draw(8); bool sq = false;
    for (size_t k = 0; k < ops; k++) {
      T &t = S[s.draw(ns - 1)]; size_t R = t.bits == 128 ? 168 : 136; std::string p = t.bits == 128 ? "shake128x4" : "shake256x4";
      if (!t.live || s.coin(1, 6)) { size_t n = gen_len(s, R, 600); Quad q = gen_quad(s, n); auto f = l.fn<ab4_t>((p + "_absorb_once").c_str()); if (!f) c.discard(); f(&t.st, q.p(0), q.p(1), q.p(2), q.p(3), n); t.m.clear(); for (int i = 0; i < 4; i++) { model::Sponge m(R, 0x1F); m.absorb(q.p(i), n); m.finalize(); t.m.push_back(m); } t.live = true; log += strf(" absorb_once(%zu)", n); }
      else { size_t nb = s.draw(5); auto f = l.fn<sq4_t>((p + "_squeezeblocks").c_str()); if (!f) c.discard(); Out o0(s.draw(7), nb * R), o1(s.draw(7), nb * R), o2(s.draw(7), nb * R), o3(s.draw(7), nb * R); f(o0.p(), o1.p(), o2.p(), o3.p(), nb, &t.st); log += strf(" squeezeblocks(%zu)", nb);
        Out *O[] = {&o0, &o1, &o2, &o3}; for (int i = 0; i < 4; i++) { Bytes e(nb * R); t.m[i].squeeze(e.data(), e.size()); c.eq(O[i]->get(), e, p + strf(" lane %d after", i) + log); c.check(O[i]->intact(), p + " wrote outside its output"); } if (nb) sq = true; }
    }
    if (sq) c.nontrivial(); if (c.sampling()) c.sample(log);
  }, true);
  c.add("state_functions", 3000000, 30000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); auto F = [&](const char *n) { return l.find((std::string("KeccakP1600times4_") + n).c_str()); };
    auto init = (void (*)(void *))F("InitializeAll"); if (!init) c.discard(); State st; memset(st.b, 0x5A, sizeof st.b); init(&st); uint8_t M[4][200]; memset(M, 0, sizeof M); std::string log; bool perm = false, part = false;
    for (int i = 800; i < 1024; i++) c.check(st.b[i] == 0x5A, "InitializeAll wrote beyond the state");
    auto perm_model = [&](int rounds) { for (int i = 0; i < 4; i++) { uint64_t x[25]; memcpy(x, M[i], 200); model::keccak_p(x, rounds); memcpy(M[i], x, 200); } };
    size_t ops = 1 + s.draw(14);
    for (size_t k = 0; k < ops; k++) {
      size_t op = s.weighted({4, 3, 3, 4, 3, 3, 4, 3, 3, 3, 2, 1, 2, 2}); unsigned inst = s.draw(3);
      unsigned off = s.draw(200), len = s.coin(1, 3) ? 200 - off : s.draw(200 - off); unsigned lc = s.draw(25), lo = lc + (s.coin(1, 2) ? s.draw(6) : 0);
      size_t mis = s.draw(7);
      if (off % 8 || len % 8) part = true;
      switch (op) {
        case 0: case 3: { bool add = op == 0; auto f = (void (*)(void *, unsigned, const uint8_t *, unsigned, unsigned))F(add ? "AddBytes" : "OverwriteBytes"); if (!f) break; Bytes d = s.bytes(len, 0); Bytes b(mis + len + 8, 0xB1); memcpy(b.data() + mis, d.data(), len); f(&st, inst, b.data() + mis, off, len); for (unsigned i = 0; i < len; i++) if (add) M[inst][off + i] ^= d[i]; else M[inst][off + i] = d[i]; log += strf(" %s(inst %u, off %u, len %u)", add ? "AddBytes" : "OverwriteBytes", inst, off, len); break; }
        case 1: case 2: { bool add = op == 1; auto f = (void (*)(void *, const uint8_t *, unsigned, unsigned))F(add ? "AddLanesAll" : "OverwriteLanesAll"); if (!f) break; size_t n = (3 * lo + lc) * 8; Bytes d = s.bytes(n, 0); Bytes b(mis + n + 8, 0xB2); memcpy(b.data() + mis, d.data(), n); f(&st, b.data() + mis, lc, lo); for (int i = 0; i < 4; i++) for (unsigned j = 0; j < lc * 8; j++) { uint8_t v = d[i * lo * 8 + j]; if (add) M[i][j] ^= v; else M[i][j] = v; } log += strf(" %s(count %u, offset %u)", add ? "AddLanesAll" : "OverwriteLanesAll", lc, lo); break; }
        case 4: { auto f = (void (*)(void *, unsigned, unsigned))F("OverwriteWithZeroes"); if (!f) break; f(&st, inst, len); memset(M[inst], 0, len); log += strf(" OverwriteWithZeroes(inst %u, %u)", inst, len); break; }
        case 5: { auto f = (void (*)(void *))F("PermuteAll_24rounds"); if (!f) break; f(&st); perm_model(24); perm = true; log += " Permute24"; break; }
        case 6: { auto f = (void (*)(const void *, unsigned, uint8_t *, unsigned, unsigned))F("ExtractBytes"); if (!f) break; Out o(mis, len); f(&st, inst, o.p(), off, len); log += strf(" ExtractBytes(inst %u, off %u, len %u)", inst, off, len); c.eq(o.p(), M[inst] + off, len, log); c.check(o.intact(), log + " wrote outside"); break; }
        case 7: { auto f = (void (*)(const void *, uint8_t *, unsigned, unsigned))F("ExtractLanesAll"); if (!f) break; size_t n = (3 * lo + lc) * 8; Out o(mis, n, 0xC7); f(&st, o.p(), lc, lo); log += strf(" ExtractLanesAll(%u, %u)", lc, lo); Bytes e(n, 0xC7); for (int i = 0; i < 4; i++) memcpy(e.data() + i * lo * 8, M[i], lc * 8); c.eq(o.get(), e, log); c.check(o.intact(), log + " wrote outside"); break; }
        case 8: { auto f = (void (*)(const void *, unsigned, const uint8_t *, uint8_t *, unsigned, unsigned))F("ExtractAndAddBytes"); if (!f) break; Bytes d = s.bytes(len, 0); d.resize(len + 8); Out o(mis, len); bool inplace = s.coin(1, 3); if (inplace) memcpy(o.p(), d.data(), len); f(&st, inst, inplace ? o.p() : d.data(), o.p(), off, len); log += strf(" ExtractAndAddBytes(inst %u, off %u, len %u%s)", inst, off, len, inplace ? ", in place" : ""); Bytes e(len); for (unsigned i = 0; i < len; i++) e[i] = d[i] ^ M[inst][off + i]; c.eq(o.get(), e, log); c.check(o.intact(), log + " wrote outside"); break; }
        case 9: { auto f = (void (*)(const void *, const uint8_t *, uint8_t *, unsigned, unsigned))F("ExtractAndAddLanesAll"); if (!f) break; size_t n = (3 * lo + lc) * 8; Bytes d = s.bytes(n, 0); d.resize(n + 8); Out o(mis, n, 0xC7); f(&st, d.data(), o.p(), lc, lo); log += strf(" ExtractAndAddLanesAll(%u, %u)", lc, lo); Bytes e(n, 0xC7); for (int i = 0; i < 4; i++) for (unsigned j = 0; j < lc * 8; j++) e[i * lo * 8 + j] = d[i * lo * 8 + j] ^ M[i][j]; c.eq(o.get(), e, log); c.check(o.intact(), log + " wrote outside"); break; }
        case 10: { auto f = (void (*)(void *))F("PermuteAll_12rounds"); if (!f) break; f(&st); perm_model(12); perm = true; log += " Permute12"; break; }
        case 11: { init(&st); memset(M, 0, sizeof M); log += " InitializeAll"; break; }
        default: { bool full = op == 12; auto f = (size_t (*)(void *, unsigned, unsigned, unsigned, const uint8_t *, size_t))(full ? l.find("KeccakF1600times4_FastLoop_Absorb") : F("12rounds_FastLoop_Absorb")); if (!f) break;
          static const unsigned LC[] = {21, 17, 9, 1, 16, 20, 24, 25, 18, 13}; unsigned cnt = s.coin(1, 3) ? 1 + s.draw(24) : LC[s.draw(9)]; bool par = s.coin(1, 2); size_t blocks = s.draw(3); unsigned lop, los; size_t tail = s.draw(cnt * 8 - 1);
          if (par) { lop = cnt + s.draw(4); los = 3 * lop + cnt - s.draw(2); } else { los = cnt; lop = cnt * std::max<size_t>(blocks, 1) + s.draw(4); }
          size_t need = (3 * (size_t)lop + cnt) * 8, n = blocks ? need + (blocks - 1) * los * 8 + tail : s.draw(need - 1); Bytes d = s.bytes(n, 0); Bytes b(mis + n + 8, 0xB3); memcpy(b.data() + mis, d.data(), n);
          size_t left = n, pos = 0; while (left >= need) { for (int i = 0; i < 4; i++) for (unsigned j = 0; j < cnt * 8; j++) M[i][j] ^= d[pos + i * lop * 8 + j]; perm_model(full ? 24 : 12); pos += los * 8; left -= los * 8; }
          // the serial distance stays within one iteration's extent, as in every XKCP caller (it is subtracted unchecked from the remaining length)
          size_t r = f(&st, cnt, lop, los, b.data() + mis, n); log += strf(" FastLoop%d(count %u, parallel %u, serial %u, %zu bytes)", full ? 24 : 12, cnt, lop, los, n); c.check(r == pos, strf("%s returned %zu, expected %zu", log.c_str(), r, pos)); perm = true; }
      }
    }
    auto ex = (void (*)(const void *, unsigned, uint8_t *, unsigned, unsigned))F("ExtractBytes"); if (ex) for (unsigned i = 0; i < 4; i++) { uint8_t o[200]; ex(&st, i, o, 0, 200); c.eq(o, M[i], 200, strf("state of instance %u after", i) + log); }
    for (int i = 800; i < 1024; i++) c.check(st.b[i] == 0x5A, "wrote beyond the state after" + log);
    if (perm && part) c.nontrivial(); if (c.sampling()) c.sample(log);
  }, true);
  c.add_enum("x4_beyond_4GiB", tier ? 4 : 2, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); int bits = i % 2 ? 256 : 128; size_t R = bits == 128 ? 168 : 136; uint64_t n = (1ull << 32) + 5; const KLib &l = LB[0]; x4_t f = l.fn<x4_t>(bits == 128 ? "shake128x4" : "shake256x4"); if (!f) return; Tiled t(n + 64); if (!t.p) return;
    if (i < 2) { Rng r(9); for (size_t k = 0; k < t.unit; k += 8) { uint64_t v = r.next(); memcpy(t.p + k, &v, 8); } uint8_t o[4][64], e[64]; f(o[0], o[1], o[2], o[3], 64, t.p, t.p, t.p, t.p, n); model::Sponge m(R, 0x1F); m.absorb(t.p, n); m.finalize(); m.squeeze(e, 64); for (int k = 0; k < 4; k++) c.eq(o[k], e, 64, strf("shake%dx4 of 2^32+5 bytes, lane %d", bits, k)); }
    else { uint8_t msg[64]; memset(msg, 3, 64); f(t.p, t.p, t.p, t.p, n, msg, msg, msg, msg, 33); model::Sponge m(R, 0x1F); m.absorb(msg, 33); m.finalize(); Bytes last(t.unit); uint64_t left = n; while (left >= t.unit) { m.squeeze(last.data(), t.unit); left -= t.unit; } m.squeeze(last.data(), left); c.eq(t.p, last.data(), t.unit, strf("shake%dx4 output of 2^32+5 bytes", bits)); }
    c.nontrivial(); c.sample("2^32+5 bytes");
  });
  c.last().cpu = 300;
}

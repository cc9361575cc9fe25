// C09: SHA3/SHAKE of both shipped hash libraries against an independent FIPS 202 model.
#include "hashgen.hpp"
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
typedef void (*fix_t)(uint8_t *, const uint8_t *, size_t);
typedef void (*xof_t)(uint8_t *, size_t, const uint8_t *, size_t);
typedef void (*st_t)(void *);
typedef void (*ab_t)(void *, const uint8_t *, size_t);
typedef void (*sq_t)(uint8_t *, size_t, void *);
struct Alg { const char *name; int bits; bool xof; size_t rate; };
static const Alg AL[] = {{"shake128", 128, true, 168}, {"shake256", 256, true, 136}, {"sha3_256", 256, false, 136}, {"sha3_512", 512, false, 72}};
static Bytes model_hash(const Alg &a, const Bytes &m, size_t o) { return a.xof ? model::shake(a.bits, m, o) : model::sha3(a.bits, m); }
static void oneshot(Ctx &c, const KLib &l, const Alg &a, const Bytes &msg, size_t inoff, size_t outlen, size_t outoff) {
  void *f = l.find(a.name); if (!f) { c.label(std::string("absent: ") + a.name); return; }
  if (!a.xof) outlen = a.bits / 8;
  Bytes in(inoff + msg.size() + 1); memcpy(in.data() + inoff, msg.data(), msg.size()); Bytes in0 = in; Out o(outoff, outlen);
  if (a.xof) ((xof_t)f)(o.p(), outlen, in.data() + inoff, msg.size()); else ((fix_t)f)(o.p(), in.data() + inoff, msg.size());
  std::string w = strf("%s (%s library), %zu message bytes, %zu output bytes", a.name, l.impl.c_str(), msg.size(), outlen);
  c.eq(o.get(), model_hash(a, msg, outlen), w); c.check(o.intact(), w + ": wrote outside its output"); c.check(in == in0, w + ": changed its input");
}
static size_t state_size(const KLib &l) { size_t *p = (size_t *)dlsym(l.h, "vf_keccak_state_size"); return p ? *p : 0; }
// one incremental stream under test
struct Stream {
  const KLib *l; const Alg *a; Bytes raw; void *st; size_t off; model::Sponge m; int phase = 0; size_t done = 0; size_t absorbed = 0;
  void *f(const char *suffix) const { return l->find((std::string(a->name) + suffix).c_str()); }
  Stream(const KLib *l, const Alg *a, uint8_t fill) : l(l), a(a), raw(state_size(*l) + 64, fill), m(a->rate, 0x1F) { st = (void *)(((uintptr_t)raw.data() + 31) & ~(uintptr_t)31); }
  void reset() { m = model::Sponge(a->rate, 0x1F); phase = 0; done = absorbed = 0; }
};
void define_check(Check &c, int tier) {
  c.id = "C09";
  c.rule = "Messages, outputs and splits are generated around block boundaries; every digest/stream byte is compared with the model. Non-trivial: message or output crosses at least one block boundary, or the stream is split into at least two pieces.";
  LB.clear(); for (auto &l : load_all("std")) if (l.k == 2) LB.push_back(l);
  c.add_enum("oneshot_every_length", (uint64_t)LB.size() * 4 * 1200, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; i /= LB.size(); const Alg &a = AL[i % 4]; size_t n = i / 4; if (n >= 1200) return;
    Rng r(n * 4 + 1); Bytes m(n); for (auto &x : m) x = r.next(); oneshot(c, l, a, m, n % 9, n % 3 == 0 ? 64 : n % 3 == 1 ? n : 2 * a.rate, n % 5);
    c.nontrivial(); if (c.sampling()) c.sample(strf("%s %zu bytes", a.name, n));
  });
  c.add("oneshot", 4000000, 30000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); const Alg &a = AL[s.draw(3)]; size_t n = gen_len(s, a.rate), o = gen_len(s, a.rate, 1024); if (s.coin(1, 2000)) n += 65536; if (s.coin(1, 2000)) o += 65536;
    Bytes m = s.bytes(n, 2); oneshot(c, l, a, m, s.draw(15), o, s.draw(15));
    c.label(a.name); if (n >= a.rate || o > a.rate) c.nontrivial(); if (n % a.rate == 0) c.label("message ends at a block boundary"); if (n % a.rate == a.rate - 1) c.label("one byte before a boundary");
    if (c.sampling()) c.sample(strf("%s %zu -> %zu", a.name, n, o));
  }, true);
  c.add("incremental", 4000000, 30000000, [](Src &s, Ctx &c) {
    size_t ns = 1 + s.draw(2); std::vector<Stream> S; std::string log;
    for (size_t i = 0; i < ns; i++) { const KLib &l = pick_lib(s, LB); if (!state_size(l)) c.discard(); S.emplace_back(&l, &AL[s.draw(1)], (uint8_t)s.draw(255)); }
    for (auto &t : S) t.st = (void *)(((uintptr_t)t.raw.data() + 31) & ~(uintptr_t)31);
    size_t nops = 2 + s.draw(14), pieces = 0; bool crossed = false;
    for (auto &t : S) { auto f = (st_t)t.f("_init"); if (!f) c.discard(); f(t.st); }
    for (size_t k = 0; k < nops; k++) {
      Stream &t = S[s.draw(S.size() - 1)]; size_t R = t.a->rate; size_t posn = (t.phase == 0 ? t.absorbed : t.done) % R;
      auto piece = [&]() -> size_t { switch (s.weighted({3, 3, 4, 3, 2, 1})) { case 0: return s.draw(9); case 1: return R - posn; case 2: return R - posn + s.srange(-2, 2) + (posn + 3 > R ? 3 : 0); case 3: return s.draw(2 * R); case 4: return R * s.draw(3); default: return s.draw(1500); } };
      if (t.phase == 0) {
        switch (s.weighted({8, 4, 2, 1})) {
          case 0: { size_t n = piece(); Bytes m = s.bytes(n, 0); m.push_back(0); auto f = (ab_t)t.f("_absorb"); if (!f) c.discard(); f(t.st, m.data(), n); t.m.absorb(m.data(), n); if (posn + n >= R) crossed = true; t.absorbed += n; pieces++; log += strf(" absorb(%zu)", n); break; }
          case 1: { auto f = (st_t)t.f("_finalize"); if (!f) c.discard(); f(t.st); t.m.finalize(); t.phase = 1; log += " finalize"; break; }
          case 2: { size_t n = piece(); Bytes m = s.bytes(n, 0); m.push_back(0); auto f = (ab_t)t.f("_absorb_once"); if (!f) c.discard(); f(t.st, m.data(), n); t.reset(); t.m.absorb(m.data(), n); t.m.finalize(); t.absorbed = n; t.phase = 1; if (n >= R) crossed = true; log += strf(" absorb_once(%zu)", n); break; }
          default: { auto f = (st_t)t.f("_init"); f(t.st); t.reset(); log += " init"; }
        }
      } else {
        bool atend = t.done % R == 0; size_t w = s.weighted({8, 4, 1, 1});
        if (w == 1 && !atend) w = 0;
        if (w == 0) { size_t n = piece(), off = s.draw(7); Out o(off, n); auto f = (sq_t)t.f("_squeeze"); if (!f) c.discard(); f(o.p(), n, t.st); Bytes e(n); t.m.squeeze(e.data(), n); log += strf(" squeeze(%zu)", n);
          c.eq(o.get(), e, "squeezed bytes after" + log); c.check(o.intact(), "squeeze wrote outside its output"); if (posn + n > R) crossed = true; t.done += n; pieces++; }
        else if (w == 1) { size_t nb = s.draw(4), n = nb * R; Out o(s.draw(7), n); auto f = (sq_t)t.f("_squeezeblocks"); if (!f) c.discard(); f(o.p(), nb, t.st); Bytes e(n); t.m.squeeze(e.data(), n); log += strf(" squeezeblocks(%zu)", nb);
          c.eq(o.get(), e, "squeezed blocks after" + log); c.check(o.intact(), "squeezeblocks wrote outside its output"); t.done += n; pieces++; if (nb) crossed = true; }
        else if (w == 2) { auto f = (st_t)t.f("_init"); f(t.st); t.reset(); log += " init"; }
        else { size_t n = piece(); Bytes m = s.bytes(n, 0); m.push_back(0); auto f = (ab_t)t.f("_absorb_once"); if (!f) c.discard(); f(t.st, m.data(), n); t.reset(); t.m.absorb(m.data(), n); t.m.finalize(); t.absorbed = n; t.phase = 1; log += strf(" absorb_once(%zu)", n); }
      }
    }
    for (auto &t : S) { // final check of every stream
      if (t.phase == 0) { ((st_t)t.f("_finalize"))(t.st); t.m.finalize(); }
      size_t n = t.a->rate + 40; Bytes g(n), e(n); ((sq_t)t.f("_squeeze"))(g.data(), n, t.st); t.m.squeeze(e.data(), n); c.eq(g, e, "final squeeze after" + log);
    }
    if (pieces >= 2) c.nontrivial(); if (crossed) c.label("crosses a block boundary"); if (ns > 1) c.label("several states"); if (c.sampling()) c.sample(log);
  }, true);
  // lengths beyond 32 bits; expected values from the model, computed once per case
  struct H { const char *w; uint64_t n; };
  c.add_enum("beyond_4GiB", (tier ? 6 : 4) * LB.size(), [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; i /= LB.size(); uint64_t n = (1ull << 32) + 5;
    // 0: shake128 one-shot input, 1: shake256 incremental input, 2: shake256 one-shot output, 3: shake128 squeeze output, 4: sha3_256, 5: sha3_512
    if (i == 1 || i == 0 || i >= 4) {
      Tiled t(n); if (!t.p) { c.label("no memory mapping"); return; } Rng r(7); for (size_t k = 0; k < t.unit; k += 8) { uint64_t v = r.next(); memcpy(t.p + k, &v, 8); }
      const Alg &a = AL[i == 0 ? 0 : i == 1 ? 1 : i == 4 ? 2 : 3]; size_t ol = a.xof ? 64 : a.bits / 8; Bytes g(ol), e(ol);
      if (i == 1) { Bytes st(state_size(l) + 64); void *q = (void *)(((uintptr_t)st.data() + 31) & ~(uintptr_t)31); if (!l.find("shake256_init") || !l.find("shake256_absorb")) return; ((st_t)l.find("shake256_init"))(q); ((ab_t)l.find("shake256_absorb"))(q, t.p, 3); ((ab_t)l.find("shake256_absorb"))(q, t.p + 3, n - 3); ((st_t)l.find("shake256_finalize"))(q); ((sq_t)l.find("shake256_squeeze"))(g.data(), ol, q); }
      else if (!l.find(a.name)) return;
      else if (a.xof) ((xof_t)l.find(a.name))(g.data(), ol, t.p, n); else ((fix_t)l.find(a.name))(g.data(), t.p, n);
      model::Sponge m(a.rate, a.xof ? 0x1F : 0x06); m.absorb(t.p, n); m.finalize(); m.squeeze(e.data(), ol); c.eq(g, e, strf("%s of 2^32+5 bytes (%s library)", a.name, l.impl.c_str()));
    } else {
      Tiled t(n); if (!t.p) { c.label("no memory mapping"); return; } const Alg &a = AL[i == 2 ? 1 : 0]; Bytes msg(33, 0x42);
      if (i == 2) { if (!l.find("shake256")) return; ((xof_t)l.find("shake256"))(t.p, n, msg.data(), 33); }
      else { Bytes st(state_size(l) + 64); void *q = (void *)(((uintptr_t)st.data() + 31) & ~(uintptr_t)31); if (!l.find("shake128_absorb_once") || !l.find("shake128_squeeze")) return; ((ab_t)l.find("shake128_absorb_once"))(q, msg.data(), 33); ((sq_t)l.find("shake128_squeeze"))(t.p, n, q); }
      // the mapping repeats, so what remains visible is the last 2 MiB of the stream, rotated
      model::Sponge m(a.rate, 0x1F); m.absorb(msg.data(), 33); m.finalize(); Bytes blk(t.unit), last(t.unit); uint64_t left = n; 
      while (left >= t.unit) { m.squeeze(last.data(), t.unit); left -= t.unit; } m.squeeze(last.data(), left);
      c.eq(t.p, last.data(), t.unit, strf("%s output of 2^32+5 bytes (%s library)", a.name, l.impl.c_str()));
    }
    c.nontrivial(); c.sample("2^32+5 bytes");
  });
  c.last().cpu = 300;
}

// Operations of the API as values: generated call, expected result from the same call alone in another copy of the library.
#pragma once
#include "kemgen.hpp"
#include "hashgen.hpp"
// entropy for the randomized entry points: per thread
static thread_local const uint8_t *rb_src; static thread_local size_t rb_left;
extern "C" __attribute__((visibility("default"))) void randombytes(uint8_t *out, size_t n) { size_t m = std::min(n, rb_left); if (m) memcpy(out, rb_src, m); if (n > m) memset(out + m, 0xA5, n - m); rb_src += m; rb_left -= m; }
struct Op { int kind; const KLib *l, *e; Bytes *i1, *i2; size_t n, m; Bytes o1, o2, x1, x2; };
static const char *ON[] = {"keypair_derand", "enc_derand", "dec", "keypair", "enc", "shake128", "shake256", "sha3_256", "sha3_512", "shake128x4", "shake256x4", "incremental"};
static void exec(const Op &o, const KLib &l, Bytes &a, Bytes &b) {
  const uint8_t *p = o.i1 ? o.i1->data() : nullptr, *q = o.i2 ? o.i2->data() : nullptr; typedef void (*SH)(uint8_t *, size_t, const uint8_t *, size_t); typedef void (*X4)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
  switch (o.kind) {
    case 0: l.keypair_derand(a.data(), b.data(), p); break; case 1: l.enc_derand(a.data(), b.data(), p, q); break; case 2: l.dec(a.data(), p, q); break;
    case 3: rb_src = p; rb_left = 64; l.keypair(a.data(), b.data()); break; case 4: rb_src = q; rb_left = 32; l.enc(a.data(), b.data(), p); break;
    case 5: case 6: l.fn<SH>(ON[o.kind])(a.data(), o.n, p, o.m); break; case 7: case 8: l.fn<void (*)(uint8_t *, const uint8_t *, size_t)>(ON[o.kind])(a.data(), p, o.m); break;
    case 9: case 10: l.fn<X4>(ON[o.kind])(a.data(), a.data() + o.n, b.data(), b.data() + o.n, o.n, p, p + o.m, p + 2 * o.m, p + 3 * o.m, o.m); break;
    case 11: { alignas(32) uint8_t st[1024]; l.fn<void (*)(void *)>("shake256_init")(st); auto ab = l.fn<void (*)(void *, const uint8_t *, size_t)>("shake256_absorb"); ab(st, p, o.m / 3); ab(st, p + o.m / 3, o.m - o.m / 3); l.fn<void (*)(void *)>("shake256_finalize")(st); auto sq = l.fn<void (*)(uint8_t *, size_t, void *)>("shake256_squeeze"); sq(a.data(), o.n / 2, st); sq(a.data() + o.n / 2, o.n - o.n / 2, st); break; } }
}
static bool have(const KLib &l, int kind) { if (kind < 5) return true; if (kind < 11) return l.find(ON[kind]); for (auto n : {"shake256_init", "shake256_absorb", "shake256_finalize", "shake256_squeeze"}) if (!l.find(n)) return false; return true; }
struct World { std::vector<Op> ops; std::vector<std::unique_ptr<Bytes>> mem; Bytes *keep(Bytes b) { mem.push_back(std::make_unique<Bytes>(std::move(b))); return mem.back().get(); } };
struct KP { const KLib *l; Bytes *pk, *sk, *ct; };
struct OpGen {
  Src &s; World &W; std::vector<std::pair<const KLib *, const KLib *>> L; std::vector<KP> keys; bool same; std::pair<const KLib *, const KLib *> L0; int samekind;
  OpGen(Src &s, World &W, const std::vector<KLib> &RUN, const std::vector<KLib> &STD) : s(s), W(W) { for (auto &l : RUN) for (auto &e : STD) if (e.k == l.k && e.impl == l.impl) L.push_back({&l, &e}); same = s.coin(2, 3); L0 = L[s.draw(L.size() - 1)]; samekind = s.coin(1, 2) ? (int)s.draw(11) : -1; }
  Op gen(std::string &log) {
    auto lp = same ? L0 : L[s.draw(L.size() - 1)]; Op o{}; o.l = lp.first; o.e = lp.second; o.kind = samekind >= 0 && s.coin(3, 4) ? samekind : s.weighted({5, 5, 6, 2, 2, 1, 1, 1, 1, 1, 1, 1}); if (!have(*o.l, o.kind) || !have(*o.e, o.kind)) o.kind = s.draw(2); const KLib &e = *o.e;
    KP *kp = nullptr; if (o.kind == 1 || o.kind == 2 || o.kind == 4) { for (auto &k : keys) if (k.l == &e && s.coin(2, 3)) kp = &k; if (!kp) { Key k = lib_keypair(e, gen_coins(s, 64)); Bytes ct(e.ct), ss(32); e.enc_derand(ct.data(), ss.data(), k.pk.data(), gen_coins(s, 32).data()); if (s.coin(1, 3)) tamper(s, e.k, ct); keys.push_back({&e, W.keep(k.pk), W.keep(k.sk), W.keep(ct)}); kp = &keys.back(); } }
    switch (o.kind) { case 0: case 3: o.i1 = W.keep(gen_coins(s, 64)); o.o1.resize(e.pk); o.o2.resize(e.sk); break; case 1: case 4: o.i1 = kp->pk; o.i2 = W.keep(gen_coins(s, 32)); o.o1.resize(e.ct); o.o2.resize(32); break; case 2: o.i1 = kp->ct; o.i2 = kp->sk; o.o1.resize(32); break;
      default: o.m = gen_len(s, 136, 400) % 600; o.n = o.kind == 7 ? 32 : o.kind == 8 ? 64 : gen_len(s, 136, 400) % 600; o.i1 = W.keep(s.bytes((o.kind == 9 || o.kind == 10 ? 4 : 1) * o.m, 1)); if (o.kind == 9 || o.kind == 10) { o.o1.resize(2 * o.n); o.o2.resize(2 * o.n); } else o.o1.resize(o.n); }
    o.x1.resize(o.o1.size()); o.x2.resize(o.o2.size()); exec(o, e, o.x1, o.x2); log += " " + o.l->name() + "." + ON[o.kind]; return o;
  }
};

// C21: results do not depend on compiler, optimisation level or build option.
#include "helperops.hpp"
#include <sys/mman.h>
#include <map>
DEFINE_RANDOMBYTES
static std::vector<std::vector<KLib>> G; static uint8_t *AR; static const size_t ARN = 1 << 19;
static const std::vector<KLib> &pick(Src &s) { return G[s.draw(G.size() - 1)]; }
__attribute__((noinline)) static void poison(uint8_t v) { volatile uint8_t b[40000]; for (size_t i = 0; i < sizeof b; i++) b[i] = v ? (uint8_t)(v + i * 31) : 0; }
// run one call on every build; all results must equal those of the first
static void all(Ctx &c, const std::vector<KLib> &L, const std::string &w, const std::function<bool(const KLib &, Bytes &)> &f) {
  Bytes r0; const KLib *first = nullptr; unsigned n = 0; for (auto &l : L) { Bytes r; poison((uint8_t)(n * 41)); if (!f(l, r)) continue; if (!first) { first = &l; r0 = r; } else if (r != r0) { size_t i = 0; while (i < r.size() && i < r0.size() && r[i] == r0[i]) i++; c.fail(w + ": builds " + first->name() + " and " + l.name() + strf(" differ from result byte %zu on: ", i) + hex(&r0[i], std::min<size_t>(8, r0.size() - i)) + " / " + hex(&r[i], std::min<size_t>(8, r.size() - i))); } n++; }
  if (n > 1) c.nontrivial(); c.labels["calls"] += n;
}
void define_check(Check &c, int) {
  c.id = "C21";
  c.rule = "One generated call is made on every build of the same sources (gcc and clang, O0..O3, Os, Oz, char signedness, link-time optimisation, wrapping and aliasing options, initialised automatic variables, stack options, BMI path) and all output bytes and return values are compared. Non-trivial: at least two builds took part.";
  c.assumptions = {"The builds listed in checks.py; x86-64 only (no other target or 32-bit runtime is installed)."};
  auto v = load_all(); std::map<std::string, std::vector<KLib>> m; for (auto &l : v) m[l.impl + std::to_string(l.k)].push_back(l); for (auto &x : m) G.push_back(x.second); AR = (uint8_t *)mmap(nullptr, ARN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  c.add("kem_operations", 30000, 1500000, [](Src &s, Ctx &c) {
    auto &L = pick(s); const KLib &r = L[0]; int k = r.k, op = s.weighted({3, 5, 5, 1}); std::string w = strf("kyber%d_%s ", 256 * k, r.impl.c_str());
    if (op == 0 || op == 3) { Bytes co = gen_coins(s, 64); rb_hook().f = nullptr; all(c, L, w + (op ? "keypair" : "keypair_derand"), [&](const KLib &l, Bytes &o) { o.assign(l.pk + l.sk + 4, 0xEE); int q; size_t at = 0; if (op) { rb_hook().calls.clear(); rb_hook().f = [&](uint8_t *b, size_t n) { memcpy(b, co.data() + at, std::min(n, 64 - at)); at += n; }; q = l.keypair(&o[0], &o[l.pk]); rb_hook().f = nullptr; } else q = l.keypair_derand(&o[0], &o[l.pk], co.data()); memcpy(&o[l.pk + l.sk], &q, 4); return true; }); if (c.sampling()) c.sample(w + "keypair on " + std::to_string(L.size()) + " builds"); return; }
    Key key = lib_keypair(r, gen_coins(s, 64)); Bytes m = gen_coins(s, 32);
    if (op == 1) { if (s.coin(1, 2)) { Bytes t = gen_poly_bytes(s, k, s.coin(1, 2) ? 4096 : 3329); memcpy(key.pk.data(), t.data(), t.size()); } all(c, L, w + "enc_derand", [&](const KLib &l, Bytes &o) { o.assign(l.ct + 36, 0xEE); int q = l.enc_derand(&o[0], &o[l.ct], key.pk.data(), m.data()); memcpy(&o[l.ct + 32], &q, 4); return true; }); }
    else { Bytes ct(r.ct), ss(32); if (s.coin(3, 4)) { r.enc_derand(ct.data(), ss.data(), key.pk.data(), m.data()); if (s.coin(2, 3)) tamper(s, k, ct); } else ct = s.bytes(r.ct, 2); if (s.coin(1, 3)) { Bytes t = gen_poly_bytes(s, k, 4096); memcpy(key.sk.data(), t.data(), t.size()); } if (s.coin(1, 8)) key.sk = s.bytes(r.sk, 2); all(c, L, w + "dec", [&](const KLib &l, Bytes &o) { o.assign(36, 0xEE); int q = l.dec(&o[0], ct.data(), key.sk.data()); memcpy(&o[32], &q, 4); return true; }); }
    if (c.sampling()) c.sample(w + (op == 1 ? "enc" : "dec") + " on " + std::to_string(L.size()) + " builds");
  });
  c.add("hashes", 40000, 2000000, [](Src &s, Ctx &c) {
    auto &L = pick(s); static const char *N[] = {"shake128", "shake256", "sha3_256", "sha3_512", "shake128x4", "shake256x4"}; int op = s.draw(5); size_t n = gen_len(s, 136, 900), o = gen_len(s, 136, 900); n %= 2000; o %= 2000; if (op == 2) o = 32; if (op == 3) o = 64; size_t off = s.draw(31); Bytes in = s.bytes(4 * n + off, 1);
    all(c, L, L[0].impl + " " + N[op] + strf(" (%zu bytes in, %zu out)", n, o), [&](const KLib &l, Bytes &r) { void *f = l.find(N[op]); if (!f) return false; const uint8_t *p = in.data() + off; r.assign((op > 3 ? 4 : 1) * o, 0xEE); if (op < 2) ((void (*)(uint8_t *, size_t, const uint8_t *, size_t))f)(r.data(), o, p, n); else if (op < 4) ((void (*)(uint8_t *, const uint8_t *, size_t))f)(r.data(), p, n); else ((void (*)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t))f)(r.data(), r.data() + o, r.data() + 2 * o, r.data() + 3 * o, o, p, p + n, p + 2 * n, p + 3 * n, n); return true; }); if (c.sampling()) c.sample(std::string(N[op]) + strf(" %zu/%zu", n, o));
  });
  c.add("incremental_hashes", 20000, 1000000, [](Src &s, Ctx &c) {
    auto &L = pick(s); bool x4 = s.coin(1, 3) && L[0].impl == "avx2"; std::string P = s.coin(1, 2) ? "shake128" : "shake256"; size_t R = P == "shake128" ? 168 : 136; std::vector<size_t> ab, sq; unsigned na = 1 + s.draw(3), nq = 1 + s.draw(3); while (na--) ab.push_back(gen_len(s, R, 300) % 700); while (nq--) sq.push_back(x4 ? s.draw(4) : gen_len(s, R, 300) % 700); size_t tot = 0; for (auto a : ab) tot += a; Bytes in = s.bytes(tot + 3 * ab[0], 1);
    all(c, L, L[0].impl + " " + P + (x4 ? "x4" : "") + " incremental", [&](const KLib &l, Bytes &r) { alignas(32) uint8_t st[1024];
      if (x4) { auto f = l.fn<void (*)(void *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t)>((P + "x4_absorb_once").c_str()); auto q = l.fn<void (*)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, void *)>((P + "x4_squeezeblocks").c_str()); if (!f || !q) return false; size_t n = ab[0]; const uint8_t *p = in.data(); f(st, p, p + n, p + 2 * n, p + 3 * n, n); for (auto z : sq) { size_t b = r.size(); r.resize(b + 4 * z * R); uint8_t *t = r.data() + b; q(t, t + z * R, t + 2 * z * R, t + 3 * z * R, z, st); } return true; }
      auto i = l.fn<void (*)(void *)>((P + "_init").c_str()), fi = l.fn<void (*)(void *)>((P + "_finalize").c_str()); auto a = l.fn<void (*)(void *, const uint8_t *, size_t)>((P + "_absorb").c_str()); auto q = l.fn<void (*)(uint8_t *, size_t, void *)>((P + "_squeeze").c_str()); if (!i || !fi || !a || !q) return false; i(st); size_t at = 0; for (auto n : ab) { a(st, in.data() + at, n); at += n; } fi(st); for (auto z : sq) { size_t b = r.size(); r.resize(b + z); q(r.data() + b, z, st); } return true; }); if (c.sampling()) c.sample(P + strf(" %zu pieces in, %zu out", ab.size(), sq.size()));
  });
  c.add("helpers", 100000, 5000000, [](Src &s, Ctx &c) {
    auto &L = pick(s); Case k; void *f0 = nullptr; auto act = gen_helper(s, L[0], k, true, f0); if (!act) c.discard(); std::string fn = k.name.substr(k.name.find('.') + 1);
    all(c, L, k.name, [&](const KLib &l, Bytes &r) { void *f = l.find(fn.c_str()); if (!f) return false; uint8_t *p[16]; size_t o = 0; for (size_t i = 0; i < k.b.size(); i++) { p[i] = AR + o; memcpy(p[i], k.b[i].a.data(), k.b[i].n); o += (k.b[i].n + 127) / 64 * 64; } if (o > ARN) abort(); act(f, p); for (size_t i = 0; i < k.b.size(); i++) r.insert(r.end(), p[i], p[i] + std::min(k.b[i].cmp, k.b[i].n)); return true; });
    c.label(fn); if (c.sampling()) c.sample(k.name);
  });
  c.add("comparison_and_moves", 40000, 2000000, [](Src &s, Ctx &c) {
    auto &L = pick(s); size_t n = gen_len(s, 32, 1600) % 4000; Bytes a = s.bytes(n, 1), b = s.coin(1, 3) ? a : s.bytes(n, 1); if (n && s.coin(1, 3)) { b = a; b[s.draw(n - 1)] ^= 1u << s.draw(7); } uint8_t fl = s.draw(1); bool cm = s.coin(1, 2);
    all(c, L, L[0].name() + (cm ? ".cmov" : ".verify") + strf(" length %zu", n), [&](const KLib &l, Bytes &r) { if (cm) { auto f = l.fn<void (*)(uint8_t *, const uint8_t *, size_t, uint8_t)>("cmov"); if (!f) return false; r = a; r.push_back(1); f(r.data(), b.data(), n, fl); } else { auto f = l.fn<int (*)(const uint8_t *, const uint8_t *, size_t)>("verify"); if (!f) return false; int v = f(a.data(), b.data(), n) != 0; r.push_back(v); } return true; }); if (c.sampling()) c.sample(strf("length %zu", n));
  });
}

// C07: randomized operations draw exactly their coins and use nothing else.
#include "kemgen.hpp"
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
struct Ent { // recording entropy source feeding prepared bytes
  Bytes next, got; 
  void install() { got.clear(); rb_hook().calls.clear(); rb_hook().f = [this](uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { uint8_t v = got.size() < next.size() ? next[got.size()] : (uint8_t)(0x9D ^ got.size()); p[i] = v; got.push_back(v); } }; }
  ~Ent() { rb_hook().f = nullptr; }
};
static std::string drew(const Ent &e) { std::string s = strf("drew %zu bytes in calls of", e.got.size()); for (auto n : rb_hook().calls) s += strf(" %zu", n); return s; }
void define_check(Check &c, int tier) {
  c.id = "C07";
  c.rule = "Histories of randomized and deterministic calls over several libraries and keys with a recording entropy source (uniform, structured and repeated draws). Each randomized call must consume exactly its coins and equal the deterministic call on them. Non-trivial: at least one randomized call; for the bit unit, one flipped entropy bit.";
  LB = load_all("std");
  c.add("histories", 350000, 4000000, [](Src &s, Ctx &c) {
    struct KP { const KLib *l; Bytes pk, sk; }; std::vector<KP> keys; struct E { size_t k; Bytes ct, ss; }; std::vector<E> encs; Bytes prev; std::string log; unsigned n = 2 + s.draw(8); bool rnd = false; const KLib *fix = s.coin(1, 2) ? &pick_lib(s, LB) : nullptr;
    for (unsigned i = 0; i < n; i++) {
      Ent e; size_t op = keys.empty() ? s.draw(1) : s.weighted({2, 1, 5, 2, 4}); const KLib &l = fix ? *fix : pick_lib(s, LB);
      auto ent = [&](size_t m) { Bytes b = s.coin(1, 4) && prev.size() >= m ? Bytes(prev.begin(), prev.begin() + m) : s.bytes(m, 2); prev = b; return b; };
      if (op == 0) { e.next = ent(64); Bytes pk(l.pk, 1), sk(l.sk, 2), pk2(l.pk, 3), sk2(l.sk, 4); e.install(); int r = l.keypair(pk.data(), sk.data()); log += " " + l.name() + ".keypair"; c.check(r == 0, log + " returned nonzero"); if (e.got.size() != 64) c.fail(log + ": " + drew(e)); 
        e.install(); l.keypair_derand(pk2.data(), sk2.data(), e.next.data()); if (e.got.size()) c.fail(log + ", keypair_derand " + drew(e)); c.eq(pk, pk2, log + ": public key against the deterministic operation on the drawn bytes"); c.eq(sk, sk2, log + ": secret key against the deterministic operation on the drawn bytes"); keys.push_back({&l, pk, sk}); rnd = true; }
      else if (op == 1) { Bytes co = s.bytes(64, 2), pk(l.pk), sk(l.sk); e.install(); l.keypair_derand(pk.data(), sk.data(), co.data()); log += " " + l.name() + ".keypair_derand"; if (e.got.size()) c.fail(log + " " + drew(e)); keys.push_back({&l, pk, sk}); }
      else if (op == 2) { auto &k = keys[s.draw(keys.size() - 1)]; const KLib &m = *k.l; e.next = ent(32); Bytes ct(m.ct, 1), ss(32, 2), ct2(m.ct, 3), ss2(32, 4); e.install(); int r = m.enc(ct.data(), ss.data(), k.pk.data()); log += " " + m.name() + ".enc"; c.check(r == 0, log + " returned nonzero"); if (e.got.size() != 32) c.fail(log + ": " + drew(e));
        e.install(); m.enc_derand(ct2.data(), ss2.data(), k.pk.data(), e.next.data()); if (e.got.size()) c.fail(log + ", enc_derand " + drew(e)); c.eq(ct, ct2, log + ": ciphertext against the deterministic operation on the drawn bytes"); c.eq(ss, ss2, log + ": shared secret against the deterministic operation on the drawn bytes"); encs.push_back({(size_t)(&k - &keys[0]), ct, ss}); rnd = true; }
      else if (op == 3) { auto &k = keys[s.draw(keys.size() - 1)]; const KLib &m = *k.l; Bytes co = s.bytes(32, 2), ct(m.ct), ss(32); e.install(); m.enc_derand(ct.data(), ss.data(), k.pk.data(), co.data()); log += " " + m.name() + ".enc_derand"; if (e.got.size()) c.fail(log + " " + drew(e)); encs.push_back({(size_t)(&k - &keys[0]), ct, ss}); }
      else { size_t ki = s.draw(keys.size() - 1); Bytes ct, ss(32); bool honest = false; if (!encs.empty() && s.coin(3, 4)) { auto &x = encs[s.draw(encs.size() - 1)]; ki = x.k; ct = x.ct; honest = true; } else ct = s.bytes(keys[ki].l->ct, 2); if (honest && s.coin(1, 3)) ct[s.draw(ct.size() - 1)] ^= 1 + s.draw(254);
        const KLib &m = *keys[ki].l; e.install(); m.dec(ss.data(), ct.data(), keys[ki].sk.data()); log += " " + m.name() + ".dec"; if (e.got.size()) c.fail(log + " " + drew(e)); }
    }
    if (rnd) c.nontrivial(); if (c.sampling()) c.sample(log);
  }, true);
  // every bit of the drawn entropy
  c.add_enum("every_entropy_bit", LB.size() * (64 + 32) * (tier ? 120 : 12), [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; i /= LB.size(); size_t p = i % 96; uint64_t key = i / 96; Rng g(key * 31 + 7); Ent e; Bytes b(96); for (auto &x : b) x = g.next(); if (key == 1) std::fill(b.begin(), b.end(), 0); if (key == 2) std::fill(b.begin(), b.end(), 0xff);
    Bytes base(b.begin(), b.begin() + 64), m(b.begin() + 64, b.end()), pk(l.pk), sk(l.sk), pk2(l.pk), sk2(l.sk), ct(l.ct), ss(32), ct2(l.ct), ss2(32);
    e.next = base; e.install(); l.keypair(pk.data(), sk.data());
    for (int bit = 0; bit < 8; bit++) { std::string w = l.name() + strf(" entropy byte %zu bit %d", p % 64, bit);
      if (p < 64) { e.next = base; e.next[p] ^= 1 << bit; e.install(); l.keypair(pk2.data(), sk2.data()); c.check(sk != sk2, w + " of key generation has no effect on the secret key"); if (p < 32) c.check(pk != pk2, w + " of key generation has no effect on the public key"); }
      else { if (bit == 0) { e.next = m; e.install(); l.enc(ct.data(), ss.data(), pk.data()); } e.next = m; e.next[p - 64] ^= 1 << bit; e.install(); l.enc(ct2.data(), ss2.data(), pk.data()); c.check(ct != ct2, w + " of encapsulation has no effect on the ciphertext"); c.check(ss != ss2, w + " of encapsulation has no effect on the shared secret"); } }
    c.evals += 7; c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" byte %zu key %llu", p, (unsigned long long)key));
  });
}

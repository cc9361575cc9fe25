// C20: every bit of public key, message, coins, rejection value and ciphertext matters exactly where it should.
#include "kemgen.hpp"
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
static int hd(const Bytes &a, const Bytes &b) { int n = 0; for (size_t i = 0; i < a.size(); i++) n += __builtin_popcount(a[i] ^ b[i]); return n; }
// two outputs of a hash on different inputs: a distance below 50 of 256 has probability < 2^-70
static void unrelated(Ctx &c, const Bytes &a, const Bytes &b, const std::string &w) { int d = hd(a, b); c.check(d >= 50, w + strf(" (secrets differ in %d of 256 bits)", d)); }
static Bytes rej(const Bytes &z, const Bytes &ct) { Bytes m = z; m.insert(m.end(), ct.begin(), ct.end()); return model::shake(256, m, 32); }
struct Inst { const KLib &l; Bytes coins, m, pk, sk, ct, ss; 
  Inst(const KLib &l, const Bytes &coins, const Bytes &m) : l(l), coins(coins), m(m), pk(l.pk), sk(l.sk), ct(l.ct), ss(32) { l.keypair_derand(pk.data(), sk.data(), coins.data()); l.enc_derand(ct.data(), ss.data(), pk.data(), m.data()); }
  Bytes z() const { return Bytes(sk.end() - 32, sk.end()); }
  Bytes dec(const Bytes &c, const Bytes &s) const { Bytes o(32, 0xEE); l.dec(o.data(), c.data(), s.data()); return o; }
};
static void layout(Ctx &c, const Inst &k) {
  size_t o = 384 * k.l.k; Bytes h = model::sha3(256, k.pk);
  c.eq(k.sk.data() + o, k.pk.data(), k.l.pk, k.l.name() + " public key stored in the secret key"); c.eq(k.sk.data() + o + k.l.pk, h.data(), 32, k.l.name() + " hash stored in the secret key"); c.eq(k.sk.data() + o + k.l.pk + 32, k.coins.data() + 32, 32, k.l.name() + " rejection value stored in the secret key");
}
static void flip_pk(Ctx &c, const Inst &k, size_t bit) {
  Bytes pk = k.pk, ct(k.l.ct), ss(32); pk[bit / 8] ^= 1 << bit % 8; k.l.enc_derand(ct.data(), ss.data(), pk.data(), k.m.data()); unrelated(c, ss, k.ss, k.l.name() + strf(": bit %zu of the public key does not change the shared secret", bit)); c.check(ct != k.ct, k.l.name() + strf(": bit %zu of the public key does not change the ciphertext", bit));
}
static void flip_msg(Ctx &c, const Inst &k, size_t bit) {
  Bytes m = k.m, ct(k.l.ct), ss(32); m[bit / 8] ^= 1 << bit % 8; k.l.enc_derand(ct.data(), ss.data(), k.pk.data(), m.data()); unrelated(c, ss, k.ss, k.l.name() + strf(": bit %zu of the message coins does not change the shared secret", bit)); c.check(ct != k.ct, k.l.name() + strf(": bit %zu of the message coins does not change the ciphertext", bit));
}
static void flip_coins(Ctx &c, const Inst &k, size_t bit) {
  Bytes co = k.coins, pk(k.l.pk), sk(k.l.sk); co[bit / 8] ^= 1 << bit % 8; k.l.keypair_derand(pk.data(), sk.data(), co.data()); std::string w = k.l.name() + strf(": bit %zu of the key coins", bit);
  if (bit < 256) { c.check(memcmp(pk.data() + 384 * k.l.k, k.pk.data() + 384 * k.l.k, 32), w + " does not change the matrix seed"); c.check(memcmp(pk.data(), k.pk.data(), 384 * k.l.k), w + " does not change the public key"); c.check(memcmp(sk.data(), k.sk.data(), 384 * k.l.k), w + " does not change the secret vector"); c.check(!memcmp(sk.data() + k.l.sk - 32, k.sk.data() + k.l.sk - 32, 32), w + " changes the rejection value"); }
  else { Bytes e = k.sk; e[k.l.sk - 32 + (bit - 256) / 8] ^= 1 << bit % 8; c.check(pk == k.pk, w + " changes the public key"); c.eq(sk, e, w + ": secret key"); }
}
static void flip_ct(Ctx &c, const Inst &k, size_t bit) {
  Bytes ct = k.ct; ct[bit / 8] ^= 1 << bit % 8; Bytes o = k.dec(ct, k.sk); std::string w = k.l.name() + strf(": ciphertext bit %zu", bit); c.check(o != k.ss, w + " accepted"); c.eq(o, rej(k.z(), ct), w + " rejection secret");
}
static void flip_stored(Ctx &c, const Inst &k, size_t bit) { // bit of stored pk || hash || z
  Bytes sk = k.sk; size_t o = 384 * k.l.k; sk[o + bit / 8] ^= 1 << bit % 8; std::string w = k.l.name();
  if (bit < 8 * k.l.pk) { Bytes g = k.dec(k.ct, sk), e(32); w += strf(": stored public key bit %zu", bit); if (g == k.ss) { if (!model::dec(k.l.k, k.ct.data(), sk.data(), e.data())) c.fail(w + " changed, honest ciphertext still accepted"); else c.label("re-encryption unaffected (model agrees)"); } else c.eq(g, rej(k.z(), k.ct), w + " changed: rejection secret"); }
  else if (bit < 8 * (k.l.pk + 32)) { Bytes g = k.dec(k.ct, sk); w += strf(": stored hash bit %zu", bit - 8 * k.l.pk); c.check(g != k.ss, w + " changed, honest ciphertext still accepted"); c.eq(g, rej(k.z(), k.ct), w + " changed: rejection secret"); }
  else { w += strf(": rejection value bit %zu", bit - 8 * (k.l.pk + 32)); c.eq(k.dec(k.ct, sk), k.ss, w + " changes the secret of an honest ciphertext"); Bytes ct = k.ct; ct[bit % k.l.ct] ^= 0x10; Bytes a = k.dec(ct, sk), b = k.dec(ct, k.sk); Bytes z(sk.end() - 32, sk.end()); unrelated(c, a, b, w + " does not change the rejection secret"); c.eq(a, rej(z, ct), w + ": rejection secret"); }
}
void define_check(Check &c, int tier) {
  c.id = "C20";
  c.rule = "Every bit position of public key, message coins, key coins, ciphertext and of the stored public key, hash and rejection value is flipped for generated keys. Every case is non-trivial (one changed bit).";
  LB = load_all("std"); const unsigned KEYS = tier ? 60 : 3; const size_t REG = 1568 + 32 + 64 + 1568 + 1568 + 64;   // bytes of all regions, largest set
  c.add_enum("every_bit", LB.size() * KEYS * REG, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; i /= LB.size(); size_t p = i % (1568 + 32 + 64 + 1568 + 1568 + 64); unsigned key = i / (1568 + 32 + 64 + 1568 + 1568 + 64);
    struct R { size_t len, cap; void (*f)(Ctx &, const Inst &, size_t); const char *n; } rs[] = {{l.pk, 1568, flip_pk, "public key"}, {32, 32, flip_msg, "message"}, {64, 64, flip_coins, "key coins"}, {l.ct, 1568, flip_ct, "ciphertext"}, {l.pk + 64, 1568 + 64, flip_stored, "stored pk/hash/z"}};
    for (auto &r : rs) { if (p >= r.cap) { p -= r.cap; continue; } if (p >= r.len) return;
      static thread_local std::map<std::string, std::shared_ptr<Inst>> cache; std::string id = l.name() + strf("/%u", key); auto &in = cache[id];
      if (!in) { Rng g(key * 977 + 5); Bytes co(64), m(32); for (auto &x : co) x = g.next(); for (auto &x : m) x = g.next(); if (key == 1) std::fill(co.begin(), co.end(), 0), std::fill(m.begin(), m.end(), 0); if (key == 2) std::fill(co.begin(), co.end(), 0xff), std::fill(m.begin(), m.end(), 0xff); in = std::make_shared<Inst>(l, co, m); }
      layout(c, *in); for (int b = 0; b < 8; b++) r.f(c, *in, 8 * p + b); c.evals += 7; c.nontrivial(); c.label(r.n); if (c.sampling()) c.sample(l.name() + strf(" %s byte %zu", r.n, p)); return; }
  });
  c.add("generated_keys", 250000, 12000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); Inst k(l, gen_coins(s, 64), gen_coins(s, 32)); layout(c, k);
    size_t what = s.draw(5); switch (what) { case 0: flip_pk(c, k, s.draw(8 * l.pk - 1)); break; case 1: flip_msg(c, k, s.draw(255)); break; case 2: flip_coins(c, k, s.draw(511)); break; case 3: flip_ct(c, k, s.draw(8 * l.ct - 1)); break; case 4: flip_stored(c, k, s.draw(8 * (l.pk + 64) - 1)); break;
      default: { // rejection secret independent of the true message and of the decryption key
        Inst k2(l, gen_coins(s, 64), gen_coins(s, 32)); Bytes ct = k.ct; tamper(s, l.k, ct); if (ct == k.ct) c.discard(); Bytes sk = k.sk; size_t nb = 384 * l.k; std::copy(k2.sk.begin(), k2.sk.begin() + nb, sk.begin()); Bytes e(32); bool acc = model::dec(l.k, ct.data(), sk.data(), e.data());
        c.eq(k.dec(ct, k.sk), rej(k.z(), ct), "rejection secret"); if (!acc) c.eq(k.dec(ct, sk), rej(k.z(), ct), "rejection secret with another decryption key"); } }
    c.nontrivial(); c.label(strf("relation %zu", what)); if (c.sampling()) c.sample(l.name() + " coins " + hex(k.coins));
  }, true);
}

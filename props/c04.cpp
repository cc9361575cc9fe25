// C04: the portable and the vectorised implementation are the same function on every byte string.
#include "kemgen.hpp"
DEFINE_RANDOMBYTES
static Libs L;
static Bytes gen_pk(Src &s, int k, Ctx &c) {
  auto v = L.byk(k); 
  switch (s.draw(3)) {
    case 0: c.label("pk: honest"); return lib_keypair(*v[0], gen_coins(s, 64)).pk;
    case 1: { c.label("pk: any 12-bit coefficients"); Bytes b = gen_poly_bytes(s, k, 4096), r = s.bytes(32, 1); b.insert(b.end(), r.begin(), r.end()); return b; }
    case 2: { c.label("pk: canonical coefficients"); Bytes b = gen_poly_bytes(s, k, 3329), r = s.bytes(32, 1); b.insert(b.end(), r.begin(), r.end()); return b; }
    default: c.label("pk: arbitrary bytes"); return s.bytes(384 * k + 32, 4);
  }
}
void define_check(Check &c, int) {
  c.id = "C04";
  c.rule = "The same generated inputs (honest, canonical, non-canonical 12-bit coefficients up to 4095, arbitrary bytes) go to both implementations; all outputs must be identical. "
           "Non-trivial: at least one argument is not an honestly generated one, or the case is a key generation; distinct by generated choices.";
  L.v = load_all();
  c.add("keypair", 200000, 6000000, [](Src &s, Ctx &c) {
    int k = 2 + s.draw(2); auto v = L.byk(k); Bytes coins = gen_coins(s, 64); Key a = lib_keypair(*v[0], coins); c.nontrivial();
    for (size_t i = 1; i < v.size(); i++) { Key b = lib_keypair(*v[i], coins); c.eq(b.pk, a.pk, v[i]->name() + " vs " + v[0]->name() + " pk, coins " + hex(coins)); c.eq(b.sk, a.sk, v[i]->name() + " vs " + v[0]->name() + " sk"); }
  }, true);
  c.add("enc", 300000, 9000000, [](Src &s, Ctx &c) {
    int k = 2 + s.draw(2); auto v = L.byk(k); Bytes pk = gen_pk(s, k, c), m = gen_coins(s, 32), ct0, ss0;
    for (auto l : v) { Bytes ct(l->ct, 0xEE), ss(32, 0xEE); int r = l->enc_derand(ct.data(), ss.data(), pk.data(), m.data()); c.check(r == 0, "enc_derand returned nonzero");
      if (ct0.empty()) ct0 = ct, ss0 = ss; else { c.eq(ct, ct0, l->name() + " vs " + v[0]->name() + " ciphertext"); c.eq(ss, ss0, l->name() + " vs " + v[0]->name() + " secret"); } }
    c.nontrivial(); if (c.sampling()) c.sample(strf("k=%d pk[0..] ", k) + hex(pk, 24) + " m " + hex(m));
  }, true);
  c.add("dec", 300000, 9000000, [](Src &s, Ctx &c) {
    int k = 2 + s.draw(2); auto v = L.byk(k); const KLib &l0 = *v[0]; Bytes sk, ct(l0.ct), ss0;
    Key key = lib_keypair(l0, gen_coins(s, 64)); Bytes m = gen_coins(s, 32), tmp(32); bool honest_sk = true;
    l0.enc_derand(ct.data(), tmp.data(), key.pk.data(), m.data());
    switch (s.draw(4)) {
      case 0: sk = key.sk; c.label("sk: honest"); break;
      case 1: sk = key.sk; { Bytes b = gen_poly_bytes(s, k, 4096); std::copy(b.begin(), b.end(), sk.begin()); } honest_sk = false; c.label("sk: any 12-bit secret coefficients"); break;
      case 2: sk = key.sk; { Bytes pk = gen_pk(s, k, c); std::copy(pk.begin(), pk.end(), sk.begin() + 384 * k); } honest_sk = false; c.label("sk: embedded public key replaced"); break;
      case 3: sk = key.sk; { unsigned n = 1 + s.draw(3); while (n--) { size_t p = s.draw(sk.size() * 8 - 1); sk[p / 8] ^= 1u << (p % 8); } } honest_sk = false; c.label("sk: bits flipped"); break;
      default: sk = s.bytes(l0.sk, 4); honest_sk = false; c.label("sk: arbitrary bytes");
    }
    bool hc = false; switch (s.draw(2)) { case 0: hc = true; c.label("ct: honest"); break; case 1: tamper(s, k, ct); c.label("ct: tampered"); break; default: ct = s.bytes(l0.ct, 4); c.label("ct: arbitrary"); }
    if (!honest_sk || !hc) c.nontrivial();
    for (auto l : v) { Bytes ss(32, 0xEE); int r = l->dec(ss.data(), ct.data(), sk.data()); c.check(r == 0, "dec returned nonzero"); if (ss0.empty()) ss0 = ss; else c.eq(ss, ss0, l->name() + " vs " + v[0]->name() + " secret"); }
    if (c.sampling()) c.sample(strf("k=%d sk[0..] ", k) + hex(sk, 24) + " ct[0..] " + hex(ct, 24));
  }, true);
}

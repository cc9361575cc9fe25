// C02: key generation, encapsulation and decapsulation are byte-for-byte those of the specification model.
#include "kemgen.hpp"
DEFINE_RANDOMBYTES
using namespace model;
void define_check(Check &c, int) {
  c.id = "C02";
  c.rule = "Outputs of the deterministic API are compared with an independent model of FIPS 203 (definition-level NTT, Keccak from FIPS 202). "
           "Non-trivial: every case with a generated seed, key or ciphertext; distinct by generated choices.";
  static Libs L; L.v = load_all();
  c.add("keypair", 100000, 3000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, L.v); Bytes coins = gen_coins(s, 64); Key k = lib_keypair(l, coins); Bytes pk(l.pk), sk(l.sk);
    keypair(l.k, coins.data(), pk.data(), sk.data());
    c.nontrivial(); c.label(l.name()); if (c.sampling()) c.sample(l.name() + " coins " + hex(coins));
    c.eq(k.pk, pk, l.name() + " public key for coins " + hex(coins)); c.eq(k.sk, sk, l.name() + " secret key for coins " + hex(coins));
  }, true);
  c.add("enc", 100000, 3000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, L.v); Bytes pk(l.pk);
    if (s.draw(3)) { pk = lib_keypair(l, gen_coins(s, 64)).pk; c.label("honest public key"); }
    else { Bytes t = gen_poly_bytes(s, l.k, 3329); Bytes rho = s.bytes(32, 1); std::copy(t.begin(), t.end(), pk.begin()); std::copy(rho.begin(), rho.end(), pk.begin() + t.size()); c.label("arbitrary canonical public key"); }
    Bytes m = gen_coins(s, 32), ct(l.ct, 0xEE), ss(32, 0xEE), mct(l.ct), mss(32);
    l.enc_derand(ct.data(), ss.data(), pk.data(), m.data()); enc(l.k, pk.data(), m.data(), mct.data(), mss.data());
    c.nontrivial(); c.label(l.name()); if (c.sampling()) c.sample(l.name() + " m " + hex(m) + " pk hash " + hex(sha3(256, pk)));
    c.eq(ct, mct, l.name() + " ciphertext"); c.eq(ss, mss, l.name() + " shared secret");
  }, true);
  c.add("dec", 100000, 3000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, L.v); Bytes coins = gen_coins(s, 64); Key k = lib_keypair(l, coins); Bytes ct(l.ct), ss(32, 0xEE), mss(32);
    std::string how = "honest"; int md = s.draw(3);
    if (md == 0) ct = s.bytes(l.ct, 4), how = "arbitrary bytes";
    else { Bytes m = gen_coins(s, 32); l.enc_derand(ct.data(), ss.data(), k.pk.data(), m.data()); if (md != 1) how = tamper(s, l.k, ct); }
    l.dec(ss.data(), ct.data(), k.sk.data()); bool acc = dec(l.k, ct.data(), k.sk.data(), mss.data());
    c.nontrivial(); c.label(acc ? "accepted by the model" : "rejected by the model");
    if (c.sampling()) c.sample(l.name() + " coins " + hex(coins) + " ct: " + how);
    c.eq(ss, mss, l.name() + " decapsulated secret (ct " + how + ")");
  }, true);
}

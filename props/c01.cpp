// C01: encapsulation and decapsulation agree for every key and coins, also across implementations.
#include "kemgen.hpp"
DEFINE_RANDOMBYTES
void define_check(Check &c, int tier) {
  c.id = "C01";
  c.rule = "Coins are structured or uniform byte strings; each of key generation, encapsulation and decapsulation is done by an implementation drawn per case. "
           "Every case is non-trivial (a full round trip); distinctness is by generated choices.";
  static Libs L; L.v = load_all();
  c.add("roundtrip", 700000, 40000000, [](Src &s, Ctx &c) {
    int k = 2 + s.draw(2); auto v = L.byk(k); 
    const KLib &a = *v[s.draw(v.size() - 1)], &b = *v[s.draw(v.size() - 1)], &d = *v[s.draw(v.size() - 1)];
    Bytes coins = gen_coins(s, 64), ec = gen_coins(s, 32);
    Bytes pk(a.pk, 0x11), sk(a.sk, 0x22), ct(a.ct, 0x33), s1(32, 0x44), s2(32, 0x55);
    c.check(a.keypair_derand(pk.data(), sk.data(), coins.data()) == 0, "keypair_derand returned nonzero");
    c.check(b.enc_derand(ct.data(), s1.data(), pk.data(), ec.data()) == 0, "enc_derand returned nonzero");
    c.check(d.dec(s2.data(), ct.data(), sk.data()) == 0, "dec returned nonzero");
    c.nontrivial(); if (c.evals % 64 == 0) {}
    c.label("k=" + std::to_string(k)); if (&a != &b || &b != &d) c.label("mixed implementations");
    if (c.sampling()) c.sample(a.name() + " -> " + b.name() + " -> " + d.name() + " coins " + hex(coins) + " enc coins " + hex(ec));
    c.eq(s2, s1, "shared secrets differ, keygen " + a.name() + ", enc " + b.name() + ", dec " + d.name() + ": coins " + hex(coins) + " " + hex(ec));
  }, true);
  c.add("roundtrip_random_api", 100000, 2000000, [](Src &s, Ctx &c) {
    int k = 2 + s.draw(2); auto v = L.byk(k);
    const KLib &a = *v[s.draw(v.size() - 1)], &b = *v[s.draw(v.size() - 1)], &d = *v[s.draw(v.size() - 1)];
    int n = 1 + s.draw(3);
    rb_hook().calls.clear(); rb_hook().f = [&](uint8_t *p, size_t m) { Bytes x = s.bytes(m, 2); memcpy(p, x.data(), m); };
    Bytes pk(a.pk), sk(a.sk); c.check(a.keypair(pk.data(), sk.data()) == 0, "keypair returned nonzero");
    std::vector<Bytes> cts, sss;
    for (int i = 0; i < n; i++) { Bytes ct(a.ct), ss(32); c.check(b.enc(ct.data(), ss.data(), pk.data()) == 0, "enc returned nonzero"); cts.push_back(ct); sss.push_back(ss); }
    rb_hook().f = nullptr;
    for (int i = n; i-- > 0;) { Bytes ss(32); c.check(d.dec(ss.data(), cts[i].data(), sk.data()) == 0, "dec returned nonzero"); c.eq(ss, sss[i], "shared secret of encapsulation differs"); }
    c.nontrivial(); c.label("encapsulations to one key: " + std::to_string(n));
  });
  // one key used very often: more than any 8-bit (quick: for some libraries 16-bit) counter counts
  c.add_enum("many_encapsulations", 2 * L.v.size(), [tier](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = L.v[i % L.v.size()]; bool same = i / L.v.size(); auto v = L.byk(l.k); unsigned n = tier ? 270000 : l.impl == "avx2" || l.k == 2 ? 66000 : 5000; Rng r(i + 5 + 1000 * strtoull(envs("VERIF_SEED", "1"), 0, 10));
    Bytes co(64), pk(l.pk), sk(l.sk), m(32), ct(l.ct), s1(32), s2(32); for (auto &x : co) x = r.next(); for (auto &x : m) x = r.next(); l.keypair_derand(pk.data(), sk.data(), co.data());
    for (unsigned j = 0; j < n; j++) { if (!same) for (int b = 0; b < 4; b++) m[b] = (uint8_t)(j >> 8 * b); const KLib &d = j % 64 == 63 ? *v[j / 64 % v.size()] : l; int a = l.enc_derand(ct.data(), s1.data(), pk.data(), m.data()), b = d.dec(s2.data(), ct.data(), sk.data()); if (a || b || s1 != s2) c.fail(l.name() + strf(": encapsulation %u to one key: status %d %d, secrets %s", j, a, b, s1 == s2 ? "equal" : "differ")); }
    c.evals += n; c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" %u encapsulations to one key, %s message", n, same ? "one" : "counting"));
  }); c.last().cpu = 900;
}

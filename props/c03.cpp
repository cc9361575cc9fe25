// C03: implicit rejection.
#include "kemgen.hpp"
DEFINE_RANDOMBYTES
using namespace model;
static Libs L;
static Bytes reject_key(const Bytes &sk, const Bytes &ct) { Bytes in(sk.end() - 32, sk.end()); in.insert(in.end(), ct.begin(), ct.end()); return shake(256, in, 32); }
void define_check(Check &c, int) {
  c.id = "C03";
  c.rule = "Honest ciphertexts are perturbed (every single bit exhaustively; generated multi-byte patterns incl. differences that cancel under xor, sum and counting; splices of two honest "
           "ciphertexts; ciphertexts of other keys). Non-trivial: the perturbed ciphertext differs from the honest one; oracle: SHAKE256(z||ct) from the model, or the honest secret.";
  L.v = load_all();
  // exhaustive single-bit flips, two generated keys per library
  std::vector<std::pair<size_t, size_t>> idx; uint64_t tot = 0; for (auto &l : L.v) tot += 8 * l.ct;
  c.add_enum("every_single_bit", 2 * tot, [tot](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX), key = i / tot; i %= tot; size_t li = 0; while (i >= 8 * L.v[li].ct) i -= 8 * L.v[li].ct, li++;
    const KLib &l = L.v[li]; uint64_t seed = strtoull(envs("VERIF_SEED", "1"), 0, 10);
    Rng r(mix64(seed * 77 + key * 5 + li)); Bytes coins(64), m(32); for (auto &x : coins) x = r.next(); for (auto &x : m) x = r.next();
    static std::map<uint64_t, std::pair<Key, Bytes>> cache; auto &e = cache[li * 2 + key];
    if (e.second.empty()) { e.first = lib_keypair(l, coins); e.second.resize(l.ct); Bytes ss(32); l.enc_derand(e.second.data(), ss.data(), e.first.pk.data(), m.data()); }
    Bytes ct = e.second, ss(32, 0xEE); ct[i / 8] ^= 1u << (i % 8);
    c.check(l.dec(ss.data(), ct.data(), e.first.sk.data()) == 0, "dec returned nonzero"); c.nontrivial();
    c.eq(ss, reject_key(e.first.sk, ct), l.name() + strf(" rejection secret after flipping ciphertext bit %llu", (unsigned long long)i));
  });
  c.add("tampered", 400000, 12000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, L.v); Bytes coins = gen_coins(s, 64), m = gen_coins(s, 32); Key k = lib_keypair(l, coins);
    Bytes ct(l.ct), ss0(32), ss(32, 0xEE); l.enc_derand(ct.data(), ss0.data(), k.pk.data(), m.data()); Bytes hon = ct;
    std::string how = tamper(s, l.k, ct);
    c.check(l.dec(ss.data(), ct.data(), k.sk.data()) == 0, "dec returned nonzero");
    if (ct == hon) { c.label("unchanged by the perturbation"); c.eq(ss, ss0, "secret of the honest ciphertext"); return; }
    c.nontrivial(); size_t sp = how.find(' '); (void)sp;
    if (s.pos % 16 == 0) { Bytes m2(32); cpa_dec(l.k, ct.data(), k.sk.data(), m2.data()); c.label(m2 == m ? "sampled: message survives" : "sampled: message changes"); }
    if (c.sampling()) c.sample(l.name() + " " + how);
    c.eq(ss, reject_key(k.sk, ct), l.name() + " rejection secret, ciphertext " + how);
    c.check(ss != ss0, "tampered ciphertext yields the honest secret: " + how);
  }, true);
  c.add("cancelling_differences", 300000, 6000000, [](Src &s, Ctx &c) {
    // perturbations that keep the decrypted message, so the comparison sees exactly this difference
    const KLib &l = pick_lib(s, L.v); Bytes coins = s.prng(64), m = s.prng(32); Key k = lib_keypair(l, coins); const Params &P = params(l.k);
    Bytes ct(l.ct), ss0(32), ss(32, 0xEE); l.enc_derand(ct.data(), ss0.data(), k.pk.data(), m.data()); Bytes hon = ct;
    size_t ulen = 32 * P.du * l.k, tot = 256 * l.k; std::string how;
    auto flip = [&](size_t base, int d, size_t i, int bit) { size_t p = i * d + bit; ct[base + p / 8] ^= 1u << (p % 8); };
    switch (s.draw(4)) {
      case 0: { size_t i = s.draw(tot - 1), st = 4 * (1 + s.draw(15)); flip(0, P.du, i, 0); flip(0, P.du, (i + st * 8) % tot, 0); how = "two equal byte differences in u"; break; }
      case 1: { size_t per = P.dv == 4 ? 2 : 8; size_t nb = 256 / per; size_t cnt = P.dv == 4 ? 16 : 2 << s.draw(3); size_t st = s.draw(nb - 1), step = 1 + s.draw(6);
                for (size_t i = 0; i < cnt; i++) flip(ulen, P.dv, per * ((st + i * step) % nb) + (P.dv == 4 ? 1 : 0), 0); how = strf("%zu equal differences in v", cnt); break; }
      case 2: { size_t n = 256; size_t st = s.draw(tot - 1); for (size_t i = 0; i < n && i < tot; i++) flip(0, P.du, (st + i) % tot, 0); how = "256 consecutive u lowest bits"; break; }
      case 3: { // opposite arithmetic changes of two equal-position bytes: differences add up to zero
                size_t g = P.du == 10 ? 5 : 11, ng = ulen / g; size_t a = s.draw(ng - 1), b = s.draw(ng - 1); if (a == b) b = (b + 1) % ng; ct[a * g] += 1; ct[b * g] -= 1; how = "+1 and -1"; break; }
      default: { unsigned n = 2 + s.draw(14); size_t nb = l.ct - ulen; (void)nb; while (n--) flip(ulen, P.dv, s.draw(255), 0); how = "random v lowest bits"; }
    }
    if (ct == hon) c.discard();
    l.dec(ss.data(), ct.data(), k.sk.data()); c.nontrivial();
    if (s.ch[0] % 8 == 0 || c.sampling()) { Bytes m2(32); cpa_dec(l.k, ct.data(), k.sk.data(), m2.data()); c.label(m2 == m ? "sampled: message survives" : "sampled: message changes"); }
    if (c.sampling()) c.sample(l.name() + " " + how);
    c.eq(ss, reject_key(k.sk, ct), l.name() + " rejection secret, " + how);
  });
  // exactly n groups of g bytes differ from the honest ciphertext, which a comparison that counts (per byte, word, vector) may take for none;
  // the least significant bits are changed, so that the message survives and the re-encryption is the honest ciphertext
  c.add("counted_differences", 200000, 4000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, L.v); const Params &P = params(l.k); Bytes coins = s.prng(64), m = s.prng(32); Key k = lib_keypair(l, coins); Bytes ct(l.ct), ss0(32), ss(32, 0xEE); l.enc_derand(ct.data(), ss0.data(), k.pk.data(), m.data()); Bytes hon = ct;
    size_t ulen = 32 * P.du * l.k; auto cost = [&](size_t bit) { return bit < 8 * ulen ? 30.0 * (1 << (bit % P.du)) / (1 << P.du) : (double)(1 << ((bit - 8 * ulen) % P.dv)) / (1 << P.dv); };
    static const size_t G[] = {1, 2, 4, 8, 16, 32, 3, 64}; size_t g = G[s.weighted({6, 5, 6, 5, 3, 3, 1, 1})], tot = l.ct / g, n; switch (s.weighted({4, 2, 2, 1})) { case 0: n = std::min<size_t>(tot, (size_t)1 << s.draw(10)); break; case 1: n = tot; break; case 2: n = 256 * (1 + s.draw(6)); if (n > tot) n = tot & ~(size_t)255; if (!n) n = tot; break; default: n = 1 + s.draw(tot - 1); }
    unsigned how = s.draw(2); std::vector<size_t> idx(tot); for (size_t i = 0; i < tot; i++) idx[i] = i;
    auto best = [&](size_t j) { size_t b = 8 * g * j; double bc = 1e9; for (size_t x = 8 * g * j; x < 8 * g * (j + 1); x++) if (cost(x) < bc) bc = cost(x), b = x; return b; };
    if (how == 0) std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return cost(best(a)) < cost(best(b)); }); else if (how == 1) { Rng r(s.draw(UINT64_MAX)); for (size_t i = tot; i-- > 1;) std::swap(idx[i], idx[r.next() % (i + 1)]); } else std::rotate(idx.begin(), idx.begin() + s.draw(tot - 1), idx.end());
    bool more = s.coin(1, 4); for (size_t i = 0; i < n; i++) { size_t b = best(idx[i]); ct[b / 8] ^= 1u << b % 8; if (more) { size_t x = 8 * g * idx[i] + s.draw(8 * g - 1); if (x != b && cost(x) < .1) ct[x / 8] ^= 1u << x % 8; } }
    l.dec(ss.data(), ct.data(), k.sk.data()); c.nontrivial(); std::string w = strf("%zu of %zu groups of %zu bytes differ", n, tot, g);
    if (s.ch[0] % 4 == 0 || c.sampling()) { Bytes m2(32); cpa_dec(l.k, ct.data(), k.sk.data(), m2.data()); c.label(m2 == m ? "sampled: message survives" : "sampled: message changes"); } if (c.sampling()) c.sample(l.name() + " " + w);
    c.eq(ss, reject_key(k.sk, ct), l.name() + " rejection secret, " + w);
  });
  c.add("foreign_and_spliced", 60000, 2000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, L.v); Key k1 = lib_keypair(l, gen_coins(s, 64)), k2 = lib_keypair(l, gen_coins(s, 64));
    Bytes m1 = gen_coins(s, 32), m2 = gen_coins(s, 32), a(l.ct), b(l.ct), sa(32), sb(32), ss(32, 0xEE), want(32);
    bool same = s.draw(1); l.enc_derand(a.data(), sa.data(), k1.pk.data(), m1.data()); l.enc_derand(b.data(), sb.data(), same ? k1.pk.data() : k2.pk.data(), m2.data());
    size_t cut = s.draw(1) ? s.draw(l.ct) : (s.draw(1) ? 0 : 32 * params(l.k).du * l.k); Bytes ct(a.begin(), a.begin() + cut); ct.insert(ct.end(), b.begin() + cut, b.end());
    bool acc = dec(l.k, ct.data(), k1.sk.data(), want.data());
    l.dec(ss.data(), ct.data(), k1.sk.data()); if (!acc) c.nontrivial(); c.label(acc ? "accepted" : "rejected");
    if (c.sampling()) c.sample(l.name() + strf(" splice at %zu, second part %s key", cut, same ? "same" : "other"));
    c.eq(ss, want, l.name() + strf(" secret for spliced ciphertext (cut %zu)", cut));
  });
}

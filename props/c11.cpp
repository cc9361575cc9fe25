// C11: ring arithmetic is exact in Z_q[X]/(X^256+1) over the whole input ranges.
#include "polylib.hpp"
DEFINE_RANDOMBYTES
using namespace model;
static std::vector<KLib> LB; static std::vector<PL> PLS;
static const int R16 = 65536 % 3329; static int inv(int a) { int r = 1, e = 3327; int64_t b = modq(a); while (e) { if (e & 1) r = r * b % 3329; b = b * b % 3329; e >>= 1; } return r; }
static int RINV;
static Poly scale(const Poly &a, int s) { Poly r(256); for (int i = 0; i < 256; i++) r[i] = a[i] * s % 3329; return r; }
// radix-2 stages of the transform over Z_q (ordering as in FIPS 203 Alg 9): stage l = 0..6 with len 128>>l
static int stage_zeta(int l, int b) { static int t[128]; static bool done = false; if (!done) { for (int i = 0; i < 128; i++) { int r = 0; for (int j = 0; j < 7; j++) r |= (i >> j & 1) << (6 - j); int z = 1; while (r--) z = z * 17 % 3329; t[i] = z; } done = true; } return t[(1 << l) + b]; }
static void fwd_stage(std::vector<int> &v, int l) { int len = 128 >> l; for (int st = 0, b = 0; st < 256; st += 2 * len, b++) { int z = stage_zeta(l, b); for (int j = st; j < st + len; j++) { int t = z * v[j + len] % 3329; v[j + len] = modq(v[j] - t); v[j] = modq(v[j] + t); } } }
static void inv_stage(std::vector<int> &v, int l) { int len = 128 >> l; for (int st = 0, b = 0; st < 256; st += 2 * len, b++) { int z = inv(stage_zeta(l, b)); for (int j = st; j < st + len; j++) { int a = v[j], d = v[j + len]; v[j] = (a + d) * 1665 % 3329; v[j + len] = (int)((int64_t)modq(a - d) * 1665 % 3329 * z % 3329); } } }
// a structured vector over Z_q
static std::vector<int> pattern(Src &s) {
  std::vector<int> v(256, 0); int c = (int)s.draw(3328), d = (int)s.draw(3328);
  switch (s.draw(5)) { case 0: std::fill(v.begin(), v.end(), c); break; case 1: { int p = (int)s.draw(7); for (int i = 0; i < 256; i++) v[i] = i >> p & 1 ? d : c; break; } case 2: { Rng r(s.draw(UINT64_MAX)); for (auto &x : v) x = r.next() & 1 ? c : modq(-c); break; }
    case 3: { Rng r(s.draw(UINT64_MAX)); for (auto &x : v) x = r.next() % 3329; break; } case 4: { for (int i = 0; i < 256; i++) v[i] = c * (i & 1) + d * !(i & 1); break; } default: { unsigned k = 1 + s.draw(7); while (k--) v[s.draw(255)] = s.draw(3328); } }
  return v;
}
// NTT-domain input whose inverse transform passes through a structured state after m of the 7 stages
static std::vector<int> invntt_target(Src &s) { int m = (int)s.draw(7); auto v = pattern(s); for (int l = 7 - m; l < 7; l++) fwd_stage(v, l); return v; }
// normal-domain input whose forward transform passes through a structured state
static std::vector<int> ntt_target(Src &s) { int m = (int)s.draw(7); auto v = pattern(s); for (int l = m; l-- > 0;) inv_stage(v, l); return v; }
// forward input along one output position: every butterfly term pushes the same way by about t
static std::vector<int> ntt_chain(Src &s) {
  int t = 1300 + (int)s.draw(460), r0 = (int)s.draw(3329); bool neg = s.coin(1, 2); int path = (int)s.draw(127); int len = 2; int sg = neg ? -1 : 1; std::vector<int> w(2, modq(sg * (r0 + 7 * t)));
  for (int l = 6; l >= 0; l--, len *= 2) { int blk = path >> (6 - l) & 1, grp = path >> (7 - l); int z = stage_zeta(l, grp & ((1 << l) - 1)), tt = modq(blk ? -sg * t : sg * t), vv = (int)((int64_t)tt * inv(z) % 3329); std::vector<int> n(2 * len); for (int i = 0; i < len; i++) { n[i] = modq(blk ? w[i] + tt : w[i] - tt); n[i + len] = vv; } w = n; }
  return w; }
// choose representatives in [-q,q]
static void represent(Src &s, const std::vector<int> &v, int16_t *o) { unsigned m = s.draw(4); Rng r(m == 4 ? s.draw(UINT64_MAX) : 0); for (int i = 0; i < 256; i++) { int x = v[i]; switch (m) { case 0: break; case 1: if (x > 1664) x -= 3329; break; case 2: x -= 3329; break; case 3: x = x == 0 ? 3329 : x; break; default: if (r.next() & 1) x -= 3329; } o[i] = x; } }
static void gen_normal(Src &s, int16_t *o) { std::vector<int> v(256); switch (s.weighted({3, 3, 3, 2, 2})) { case 0: { auto c = gen_coeffs(s, 3329); for (int i = 0; i < 256; i++) v[i] = c[i]; break; } case 1: v = ntt_target(s); break; case 2: v = ntt_chain(s); break; case 3: { auto c = gen_coeffs(s, 7); for (int i = 0; i < 256; i++) v[i] = modq(c[i] - 3); break; }
  default: { // extremes with a sign pattern
    int p = (int)s.draw(255), q = (int)s.draw(8); Rng r(s.draw(UINT64_MAX)); for (int i = 0; i < 256; i++) { bool b = q == 8 ? r.next() & 1 : __builtin_parity(i & p) ^ (q & 1); o[i] = b ? 3328 : -3328; if (q & 2) o[i] = b ? 3329 : -3329; if (q & 4) o[i] = b ? 1664 : -1664; } return; } }
  represent(s, v, o); }
static void gen_ntt_dom(Src &s, std::vector<int> &v, unsigned lim) { // standard order, values < lim
  switch (s.draw(2)) { case 0: { auto c = gen_coeffs(s, lim); v.assign(c.begin(), c.end()); break; } case 1: v = invntt_target(s); if (lim > 3329) { Rng r(s.draw(UINT64_MAX)); for (auto &x : v) if (x + 3329 < (int)lim && (r.next() & 1)) x += 3329; } break; default: v = pattern(s); } }
static Poly mod_all(const std::vector<int> &v) { Poly r(256); for (int i = 0; i < 256; i++) r[i] = modq(v[i]); return r; }
static Poly pmul(const Poly &a, const Poly &b) { return mul_ntt(a, b); }
static void same(Ctx &c, const Poly &g, const Poly &e, const std::string &w) { for (int i = 0; i < 256; i++) if (g[i] != e[i]) c.fail(w + strf(": coefficient %d is %u, exact value %u", i, g[i], e[i])); }
static std::string dump(const Po &p) { std::string r; for (int i = 0; i < 256; i++) r += strf("%d ", p.c[i]); return r; }

void define_check(Check &c, int tier) {
  c.id = "C11"; RINV = inv(R16); stage_zeta(0, 0);
  c.rule = "Scalar reductions: every input of the documented range. Coefficient-wise operations: every 16-bit value at every position. Transforms and products: generated coefficient patterns including inputs constructed so that a chosen inner stage of the transform holds a chosen (extreme) state and so that every butterfly term of one output pushes in the same direction; oracle is evaluation/schoolbook arithmetic over Z_q. All cases are non-trivial except the zero polynomial.";
  c.assumptions = {"Operand ranges: forward transform inputs in [-q,q]; products of any 12-bit operand (as unpacked from bytes) with the output of the forward transform; for the vectorised code additionally its documented arbitrary 16-bit operands."};
  LB = load_all("std"); PLS = load_pl(LB);
  for (auto &P : PLS) if (P.perm.empty()) c.notes["order " + P.l->name()] = "poly_frombytes not reachable or not a permutation: transform-level units skipped there";
  static std::vector<const PL *> TP; for (auto &P : PLS) if (!P.perm.empty()) TP.push_back(&P);
  static std::vector<const PL *> RF; for (auto &P : PLS) if (P.l->find("montgomery_reduce")) RF.push_back(&P);
  if (!RF.empty()) {
    c.add_enum("montgomery_reduce_every_input", 3329, [](Src &s, Ctx &c) { // [-q 2^15, q 2^15 - 1] in chunks of 2^16
      int64_t i = s.draw(UINT64_MAX), lo = -3329LL * 32768 + i * 65536; for (auto *P : {RF[0]}) { auto f = P->l->fn<int16_t (*)(int32_t)>("montgomery_reduce"); int e = (int)((int64_t)modq(lo) * RINV % 3329); 
        for (int64_t a = lo; a < lo + 65536; a++) { int r = f((int32_t)a); int m = r < 0 ? r + 3329 : r; if (m != e || r <= -3329 || r >= 3329) c.fail(P->l->name() + strf(" montgomery_reduce(%lld) = %d, expected a residue of %d within (-q,q)", (long long)a, r, e)); e += RINV; if (e >= 3329) e -= 3329; } }
      c.evals += 65535; c.nontrivial(); if (c.sampling()) c.sample(strf("a from %lld", (long long)lo)); });
    c.add_enum("montgomery_reduce_other_sets", 4096, [](Src &s, Ctx &c) { uint64_t i = s.draw(UINT64_MAX); for (auto *P : RF) { auto f = P->l->fn<int16_t (*)(int32_t)>("montgomery_reduce"); for (int j = 0; j < 256; j++) { int64_t a = -3329LL * 32768 + ((i * 256 + j) * 208); if (j == 255) a = 3329LL * 32768 - 1 - (int64_t)i; int r = f((int32_t)a); if (modq(r) != (int64_t)modq(a) * RINV % 3329 || r <= -3329 || r >= 3329) c.fail(P->l->name() + strf(" montgomery_reduce(%lld) = %d", (long long)a, r)); } } c.nontrivial(); });
  } else c.notes["montgomery_reduce"] = "not present with the documented type";
  c.add_enum("barrett_reduce_every_input", 256, [](Src &s, Ctx &c) { int i = (int)s.draw(UINT64_MAX); for (auto &P : PLS) { auto f = P.l->fn<int16_t (*)(int16_t)>("barrett_reduce"); if (!f) continue; for (int a = -32768 + i * 256, n = 0; n < 256; a++, n++) { int r = f((int16_t)a), e = modq(a); if (e > 1664) e -= 3329; if (r != e) c.fail(P.l->name() + strf(" barrett_reduce(%d) = %d, centered representative is %d", a, r, e)); c.evals++; } } c.nontrivial(); });
  // every 16-bit value at every position through reduce / tomont; add and sub with partners keeping the sum in range
  c.add_enum("coefficientwise_every_value_every_position", 65536, [](Src &s, Ctx &c) {
    int st = (int)s.draw(UINT64_MAX); for (auto &P : PLS) { Po a; for (int i = 0; i < 256; i++) a.c[i] = (int16_t)(st + i * 257); std::string n = P.l->name();
      if (P.has({"poly_reduce"})) { Po x = a; P.v1("poly_reduce", x); for (int i = 0; i < 256; i++) if (modq(x.c[i]) != modq(a.c[i]) || x.c[i] > 3329 || x.c[i] < -3329) c.fail(n + strf(" poly_reduce: %d at position %d becomes %d", a.c[i], i, x.c[i])); }
      if (P.has({"poly_tomont"})) { Po x = a; P.v1("poly_tomont", x); for (int i = 0; i < 256; i++) if (modq(x.c[i]) != (int64_t)modq(a.c[i]) * R16 % 3329) c.fail(n + strf(" poly_tomont: %d at position %d becomes %d", a.c[i], i, x.c[i])); }
      for (int op = 0; op < 2; op++) { const char *f = op ? "poly_sub" : "poly_add"; if (!P.has({f})) continue; Po b; Rng r(st * 2 + op); for (int i = 0; i < 256; i++) { int x = a.c[i], lo = -32768, hi = 32767; if (!op) { if (x > 0) hi -= x; else lo -= x; } else { if (x < 0) hi = 32767 + x; else lo = x - 32767; if (x < 0) hi = std::min(hi, 32767), lo = -32768, hi = 32768 + x; else hi = 32767; }
          int v = lo + (int)(r.next() % (uint64_t)(hi - lo + 1)); unsigned m = r.next() & 7; if (m == 0) v = lo; if (m == 1) v = hi; b.c[i] = v; }
        auto want = [&](int i) { return op ? a.c[i] - b.c[i] : a.c[i] + b.c[i]; };
        Po o; P.v2(f, o, a, b); Po oa = a; P.v2(f, oa, oa, b); Po ob = b; P.v2(f, ob, a, ob); for (int i = 0; i < 256; i++) { int e = want(i); if (e < -32768 || e > 32767) continue; if (o.c[i] != (int16_t)o.c[i] || modq(o.c[i]) != modq(e) || modq(oa.c[i]) != modq(e) || modq(ob.c[i]) != modq(e)) c.fail(n + strf(" %s: position %d, %d and %d give %d (into first operand %d, into second %d)", f, i, a.c[i], b.c[i], o.c[i], oa.c[i], ob.c[i])); } } }
    c.evals += 255; c.nontrivial(); if (c.sampling()) c.sample(strf("start %d stride 257", st)); });
  if (TP.empty()) return;
  c.add("ntt_is_evaluation", 800000, 12000000, [](Src &s, Ctx &c) {
    const PL &P = *TP[s.draw(TP.size() - 1)]; if (!P.has({"poly_ntt"})) c.discard(); Po a; gen_normal(s, a.c); Poly x = canon(a), e = ntt(x); Po y = a; P.v1("poly_ntt", y); int mx = 0; for (int i = 0; i < 256; i++) mx = std::max(mx, abs(y.c[i])); c.label(P.l->impl + strf(" largest output magnitude %d000s", mx / 1000)); if (P.to_std(y) != e) same(c, P.to_std(y), e, P.l->name() + " poly_ntt of " + dump(a));
    if (P.has({"poly_reduce", "poly_tobytes"})) { Po z = y; P.v1("poly_reduce", z); Bytes o(384 + 64); P.tob("poly_tobytes", o.data(), z); Bytes eb = byte_encode(12, e); c.eq(o.data(), eb.data(), 384, P.l->name() + " poly_tobytes(poly_reduce(poly_ntt))"); }
    if (P.has({"poly_invntt_tomont"})) { Po z = y; P.v1("poly_invntt_tomont", z); same(c, canon(z), scale(x, R16), P.l->name() + " poly_invntt_tomont(poly_ntt) of " + dump(a)); Po w = y; if (P.has({"poly_reduce"})) { P.v1("poly_reduce", w); P.v1("poly_invntt_tomont", w); same(c, canon(w), scale(x, R16), P.l->name() + " poly_invntt_tomont(poly_reduce(poly_ntt)) of " + dump(a)); } }
    if (x != Poly(256)) c.nontrivial(); if (c.sampling()) c.sample(P.l->name() + " " + dump(a).substr(0, 80));
  }, true);
  c.add("invntt_is_interpolation", 800000, 12000000, [](Src &s, Ctx &c) {
    const PL &P = *TP[s.draw(TP.size() - 1)]; if (!P.has({"poly_invntt_tomont"})) c.discard(); Po a; std::vector<int> v; unsigned m = s.draw(2);
    if (m == 2 && P.l->impl == "avx2") { auto r = gen_coeffs(s, 65536 > 65535 ? 65535 : 65535); for (int i = 0; i < 256; i++) a.c[i] = (int16_t)r[i]; if (s.coin(1, 3)) { Rng g(s.draw(UINT64_MAX)); for (int i = 0; i < 256; i++) a.c[i] = g.next() & 1 ? 32767 : -32768; } v.resize(256); for (int i = 0; i < 256; i++) v[P.perm[i]] = a.c[i]; c.label("arbitrary 16-bit input"); }
    else { gen_ntt_dom(s, v, 3329); int16_t t[256]; represent(s, v, t); for (int i = 0; i < 256; i++) if (t[i] == 3329 || t[i] == -3329) t[i] = 0; for (int i = 0; i < 256; i++) v[i] = t[i]; P.to_internal(a, v); }
    Poly e = scale(intt(mod_all(v)), R16); Po y = a; P.v1("poly_invntt_tomont", y); same(c, canon(y), e, P.l->name() + " poly_invntt_tomont of (internal order) " + dump(a)); Po z = y; if (P.has({"poly_reduce"})) { P.v1("poly_reduce", z); same(c, canon(z), e, P.l->name() + " poly_reduce(poly_invntt_tomont)"); }
    if (e != Poly(256)) c.nontrivial(); if (c.sampling()) c.sample(P.l->name() + " " + dump(a).substr(0, 80));
  }, true);
  c.add("multiplication_in_ring", 700000, 10000000, [](Src &s, Ctx &c) {
    const PL &P = *TP[s.draw(TP.size() - 1)]; std::string n = P.l->name(); if (!P.has({"poly_basemul_montgomery", "poly_ntt", "poly_frombytes"})) c.discard(); 
    Po a, b; std::vector<int> av; Poly bs; unsigned m = s.draw(3);
    if (m == 3 && P.l->impl == "avx2") { // documented: one operand bounded by q, the other arbitrary
      auto r = gen_coeffs(s, 65535); std::vector<int> bv; gen_ntt_dom(s, bv, 3329); std::vector<int> big(256), bb(256); for (int i = 0; i < 256; i++) big[i] = (int16_t)r[i]; if (s.coin(1, 3)) { Rng g(s.draw(UINT64_MAX)); for (auto &x : big) x = g.next() & 1 ? 32767 : -32768; } int16_t t[256]; represent(s, bv, t); for (int i = 0; i < 256; i++) bb[i] = t[i]; bool sw = s.coin(1, 2); P.to_internal(sw ? b : a, big); P.to_internal(sw ? a : b, bb); av = sw ? bb : big; bs = mod_all(sw ? big : bb); c.label("arbitrary 16-bit operand"); }
    else { gen_ntt_dom(s, av, 4096); std::vector<uint16_t> a16(av.begin(), av.end()); Bytes ab = byte_encode(12, a16); ab.resize(384 + 64); P.fromb("poly_frombytes", a, ab.data()); 
      if (s.coin(1, 2)) { gen_normal(s, b.c); } else { std::vector<int> t; gen_ntt_dom(s, t, 3329); Poly i = intt(mod_all(t)); std::vector<int> iv(i.begin(), i.end()); represent(s, iv, b.c); }
      bs = ntt(canon(b)); P.v1("poly_ntt", b); }
    Poly as = mod_all(av), e = scale(pmul(as, bs), RINV); Po r; P.v2("poly_basemul_montgomery", r, a, b); Poly g = P.to_std(r); if (g != e) same(c, g, e, n + " poly_basemul_montgomery; a " + dump(a) + "; b " + dump(b));
    if (P.has({"poly_invntt_tomont"})) { Po z = r; P.v1("poly_invntt_tomont", z); same(c, canon(z), intt(pmul(as, bs)), n + " inverse transform of the product"); if (s.coin(1, 16)) same(c, canon(z), schoolbook(intt(as), intt(bs)), n + " against schoolbook multiplication"); }
    if (e != Poly(256)) c.nontrivial(); if (c.sampling()) c.sample(n + " " + dump(a).substr(0, 60));
  }, true);
  c.add("vector_product_accumulates_exactly", 500000, 8000000, [](Src &s, Ctx &c) {
    const PL &P = *TP[s.draw(TP.size() - 1)]; int k = P.l->k; std::string n = P.l->name(); if (!P.has({"polyvec_basemul_acc_montgomery", "polyvec_ntt", "polyvec_frombytes"})) c.discard();
    Pv a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); Bytes ab; Poly acc(256); std::vector<Poly> as, bs; bool same_all = s.coin(1, 2); std::vector<int> v0; int16_t b0[256];
    for (int i = 0; i < k; i++) { std::vector<int> v; if (!i || !same_all) gen_ntt_dom(s, v, 4096); else v = v0; if (!i) v0 = v; std::vector<uint16_t> t(v.begin(), v.end()); Bytes x = byte_encode(12, t); ab.insert(ab.end(), x.begin(), x.end()); as.push_back(mod_all(v));
      if (!i || !same_all) { if (s.coin(1, 2)) gen_normal(s, b.c[i]); else { std::vector<int> t2; gen_ntt_dom(s, t2, 3329); Poly q = intt(mod_all(t2)); std::vector<int> iv(q.begin(), q.end()); represent(s, iv, b.c[i]); } } else memcpy(b.c[i], b0, sizeof b0); if (!i) memcpy(b0, b.c[0], sizeof b0); Po t3; memcpy(t3.c, b.c[i], 512); bs.push_back(ntt(canon(t3))); acc = add(acc, pmul(as[i], bs[i])); }
    ab.resize(ab.size() + 64); P.l->fn<void (*)(Pv *, const uint8_t *)>("polyvec_frombytes")(&a, ab.data()); P.w1("polyvec_ntt", b); for (int i = 0; i < k; i++) { Po t; memcpy(t.c, b.c[i], 512); same(c, P.to_std(t), bs[i], n + strf(" polyvec_ntt entry %d", i)); }
    Po r; P.l->fn<void (*)(Po *, const Pv *, const Pv *)>("polyvec_basemul_acc_montgomery")(&r, &a, &b); same(c, P.to_std(r), scale(acc, RINV), n + " polyvec_basemul_acc_montgomery");
    Poly std_acc = intt(acc);
    if (P.has({"poly_invntt_tomont"})) { Po z = r; P.v1("poly_invntt_tomont", z); same(c, canon(z), std_acc, n + " inverse transform of the accumulated product");
      if (P.has({"poly_add", "poly_sub", "poly_reduce"})) { // the ways the scheme finishes: v = x + e + m ; mp = v' - x
        Po e, m; auto ec = gen_coeffs(s, 7); Poly es(256), ms(256); for (int i = 0; i < 256; i++) { e.c[i] = ec[i] - 3; es[i] = modq(e.c[i]); } auto mc = gen_coeffs(s, 2); for (int i = 0; i < 256; i++) { m.c[i] = mc[i] ? 1665 : 0; ms[i] = m.c[i]; } Po v = z; P.v2("poly_add", v, v, e); P.v2("poly_add", v, v, m); P.v1("poly_reduce", v); same(c, canon(v), add(add(std_acc, es), ms), n + " product + noise + message");
        Po d; auto dc = gen_coeffs(s, 3329); Poly ds(dc.begin(), dc.end()); for (int i = 0; i < 256; i++) d.c[i] = dc[i]; Po w = z; P.v2("poly_sub", w, d, w); P.v1("poly_reduce", w); same(c, canon(w), sub(ds, std_acc), n + " decompressed value - product"); } }
    if (P.has({"poly_tomont"})) { Po t = r; P.v1("poly_tomont", t); same(c, P.to_std(t), acc, n + " poly_tomont of the accumulated product"); if (P.has({"poly_add", "poly_reduce"})) { Po e; gen_normal(s, e.c); Poly es = ntt(canon(e)); P.v1("poly_ntt", e); P.v2("poly_add", t, t, e); P.v1("poly_reduce", t); same(c, P.to_std(t), add(acc, es), n + " A s + e"); } }
    if (P.has({"polyvec_add", "polyvec_reduce", "polyvec_invntt_tomont"})) { Pv x = b, y; memset(&y, 0, sizeof y); for (int i = 0; i < k; i++) { Po t; memcpy(t.c, b.c[i], 512); if (P.has({"poly_reduce"})) P.v1("poly_reduce", t); memcpy(x.c[i], t.c, 512); } P.w1("polyvec_invntt_tomont", x); std::vector<Poly> ys; for (int i = 0; i < k; i++) { auto ec = gen_coeffs(s, 7); Poly t(256); for (int j = 0; j < 256; j++) { y.c[i][j] = ec[j] - 3; t[j] = modq(ec[j] - 3); } ys.push_back(t); } P.l->fn<void (*)(Pv *, const Pv *, const Pv *)>("polyvec_add")(&x, &x, &y); P.w1("polyvec_reduce", x); for (int i = 0; i < k; i++) { Po t; memcpy(t.c, x.c[i], 512); same(c, canon(t), add(scale(intt(bs[i]), R16), ys[i]), n + strf(" polyvec_invntt_tomont + noise, entry %d", i)); } }
    c.nontrivial(); c.label(same_all ? "equal entries" : "different entries"); if (c.sampling()) c.sample(n);
  }, true);
  static std::vector<const PL *> NT; for (auto *P : TP) if (P->l->impl == "ref" && P->has({"ntt", "invntt", "basemul"})) NT.push_back(P);
  if (!NT.empty()) c.add("portable_kernels", 60000, 3000000, [](Src &s, Ctx &c) { // ntt / invntt / basemul of the portable code as documented
    const PL &P = *NT[s.draw(NT.size() - 1)]; Po a; gen_normal(s, a.c); Po y = a; P.l->fn<void (*)(int16_t *)>("ntt")(y.c); same(c, canon(y), ntt(canon(a)), P.l->name() + " ntt of " + dump(a));
    std::vector<int> v; gen_ntt_dom(s, v, 3329); int16_t t[256]; represent(s, v, t); Po z; for (int i = 0; i < 256; i++) { if (t[i] == 3329 || t[i] == -3329) t[i] = 0; z.c[i] = t[i]; v[i] = t[i]; } P.l->fn<void (*)(int16_t *)>("invntt")(z.c); same(c, canon(z), scale(intt(mod_all(v)), R16), P.l->name() + " invntt");
    int16_t p[2] = {(int16_t)s.draw(4095), (int16_t)s.draw(4095)}, q[2] = {(int16_t)(s.draw(6656) - 3328), (int16_t)(s.draw(6656) - 3328)}, r[2]; int ze = (int)s.draw(3328) - 1664; P.l->fn<void (*)(int16_t *, const int16_t *, const int16_t *, int16_t)>("basemul")(r, p, q, ze); int64_t z0 = (int64_t)modq(ze) * RINV % 3329; int e0 = modq((int64_t)p[0] * q[0] % 3329 * RINV + (int64_t)modq((int64_t)p[1] * q[1]) * z0 % 3329 * RINV), e1 = modq(((int64_t)p[0] * q[1] + (int64_t)p[1] * q[0]) % 3329 * RINV); if (modq(r[0]) != e0 || modq(r[1]) != e1) c.fail(P.l->name() + strf(" basemul (%d,%d)*(%d,%d) zeta %d gave (%d,%d)", p[0], p[1], q[0], q[1], ze, r[0], r[1]));
    c.nontrivial();
  }, true);
}

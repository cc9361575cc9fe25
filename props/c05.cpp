// C05: results are a function of the input bytes only; inputs are never written.
#include "kemgen.hpp"
#include "hashgen.hpp"
#include "places.hpp"
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
// overwrite a good part of the stack below the current frame, then return
__attribute__((noinline)) static void poison_stack(uint8_t v) { volatile uint8_t b[49152]; for (size_t i = 0; i < sizeof b; i++) b[i] = (uint8_t)(v + (v == 0x77 ? i * 37 : 0)); __asm__ volatile("" ::: "memory"); }
#include <immintrin.h>
__attribute__((noinline)) static void poison_regs(uint8_t v) { // vector registers may hold anything
  __m256i x = _mm256_set1_epi8(v); __asm__ volatile("vmovdqu %0,%%ymm0\n vmovdqa %0,%%ymm1\n vmovdqa %0,%%ymm2\n vmovdqa %0,%%ymm3\n vmovdqa %0,%%ymm4\n vmovdqa %0,%%ymm5\n vmovdqa %0,%%ymm6\n vmovdqa %0,%%ymm7\n vmovdqa %0,%%ymm8\n vmovdqa %0,%%ymm9\n vmovdqa %0,%%ymm10\n vmovdqa %0,%%ymm11\n vmovdqa %0,%%ymm12\n vmovdqa %0,%%ymm13\n vmovdqa %0,%%ymm14\n vmovdqa %0,%%ymm15" : : "m"(x) : "ymm0","ymm1","ymm2","ymm3","ymm4","ymm5","ymm6","ymm7","ymm8","ymm9","ymm10","ymm11","ymm12","ymm13","ymm14","ymm15"); }
static uint8_t ARENA[1 << 17] __attribute__((aligned(4096)));
// a drawn stack displacement moves the operation's frames
template <class F> __attribute__((noinline)) static int at_depth(size_t d, F f) { volatile uint8_t *p = (volatile uint8_t *)__builtin_alloca(d + 16); p[0] = 1; p[d] = 2; int r = f(); __asm__ volatile("" : : "r"(p) : "memory"); return r; }
struct Buf { uint8_t *p; size_t n; };
// place buffers in the arena at drawn offsets, prefilled
struct Place {
  bool fixed = false; size_t top = 64; uint8_t fill; Src &s; explicit Place(Src &s, uint8_t fill) : fill(fill), s(s) { memset(ARENA, fill, 32768); }
  Buf get(size_t n) { size_t o = top + (fixed ? 0 : s.draw(63)); top = o + n + 64; return Buf{ARENA + o, n}; }
  Buf put(const Bytes &b) { Buf x = get(b.size()); memcpy(x.p, b.data(), b.size()); return x; }
};
struct Op { int kind; const KLib *l; Bytes in1, in2, out1, out2; int ret; };   // 0 keypair, 1 enc, 2 dec
static void run_op(Src &s, Ctx &c, Op &o, bool first, const std::string &log) {
  uint8_t fill = s.coin(1, 2) ? (uint8_t)s.draw(255) : 0; Place P(s, fill); P.fixed = s.coin(1, 2); const KLib &l = *o.l; size_t no1 = o.kind == 0 ? l.pk : o.kind == 1 ? l.ct : 32, no2 = o.kind == 0 ? l.sk : o.kind == 1 ? 32 : 0;
  Buf a, b, x, y; bool outfirst = !P.fixed && s.coin(1, 2); if (outfirst) { x = P.get(no1); y = P.get(no2); } a = P.put(o.in1); b = P.put(o.in2); if (!outfirst) { x = P.get(no1); y = P.get(no2); }
  Bytes before(ARENA, ARENA + P.top + 64); size_t depth = s.coin(1, 2) ? s.draw(300) : 0; uint8_t pv = s.draw(255); if (s.coin(1, 2)) { poison_stack(pv); poison_regs(pv); }
  int r = at_depth(depth, [&] { return o.kind == 0 ? l.keypair_derand(x.p, y.p, a.p) : o.kind == 1 ? l.enc_derand(x.p, y.p, a.p, b.p) : l.dec(x.p, a.p, b.p); });
  Bytes o1(x.p, x.p + no1), o2(y.p, y.p + no2);
  // everything in the arena but the outputs is as before
  memcpy(x.p, before.data() + (x.p - ARENA), no1); memcpy(y.p, before.data() + (y.p - ARENA), no2);
  if (memcmp(ARENA, before.data(), before.size())) { size_t i = 0; while (ARENA[i] == before[i]) i++; bool ina = ARENA + i >= a.p && ARENA + i < a.p + a.n, inb = ARENA + i >= b.p && ARENA + i < b.p + b.n; c.fail(log + strf(": %s was written (offset %zu)", ina || inb ? "an input buffer" : "memory outside the arguments", ina ? ARENA + i - a.p : inb ? ARENA + i - b.p : i)); }
  if (first) { o.out1 = o1; o.out2 = o2; o.ret = r; }
  else { c.check(r == o.ret, log + ": return value changed"); c.eq(o1, o.out1, log + ": first output changed when repeated in another context"); c.eq(o2, o.out2, log + ": second output changed when repeated in another context"); }
}
void define_check(Check &c, int tier) {
  c.id = "C05";
  c.rule = "Histories of API calls over several libraries; calls are repeated later with equal input bytes in another context (other calls in between, other alignment, other output contents, poisoned stack and registers, other stack depth) and must return equal bytes; outputs must not depend on their previous contents; all other memory of the arena is compared. Non-trivial: a repeated call with at least one different call in between.";
  LB = load_all("std");
  // fresh processes: no library function ran before the first operation of the history, so first-use paths are reached from every entry point.
  // Keys and ciphertexts come from the model; this unit stays first so that its parent process is untouched.
  c.add("first_operations", 12000, 600000, [](Src &s, Ctx &c) {
    unsigned n = 1 + s.draw(4); std::string log = "fresh process:"; const KLib *l0 = &pick_lib(s, LB); bool same = s.coin(3, 4); typedef void (*SH)(uint8_t *, size_t, const uint8_t *, size_t);
    for (unsigned i = 0; i < n; i++) {
      const KLib &l = same ? *l0 : pick_lib(s, LB); unsigned k = s.weighted({4, 6, 6, 1, 2, 1, 1, 1, 1}); static const char *N[] = {"keypair_derand", "enc_derand", "dec", "keypair", "enc", "shake128", "shake256", "sha3_256", "sha3_512"}; log += " " + l.name() + "." + N[k];
      if (k >= 5) { void *f = l.find(N[k]); if (!f) continue; size_t il = gen_len(s, 136, 400), ol = k == 7 ? 32 : k == 8 ? 64 : gen_len(s, 136, 400); Bytes in = s.bytes(il, 0), o(ol + 1, 0x5A), e = k == 5 ? model::shake(128, in, ol) : k == 6 ? model::shake(256, in, ol) : model::sha3(k == 7 ? 256 : 512, in); if (k < 7) ((SH)f)(o.data(), ol, in.data(), il); else ((void (*)(uint8_t *, const uint8_t *, size_t))f)(o.data(), in.data(), il); o.resize(ol); c.eq(o, e, log); continue; }
      Bytes co = gen_coins(s, 64), m = gen_coins(s, 32), pk(l.pk), sk(l.sk), ct(l.ct), ss(32), rj(32), o1, o2; model::keypair(l.k, co.data(), pk.data(), sk.data()); rb_hook().f = [&](uint8_t *o, size_t z) { const Bytes &b = k == 3 ? co : m; for (size_t j = 0; j < z; j++) o[j] = b[j % b.size()]; };
      if (k == 0 || k == 3) { o1.assign(l.pk, 0xEE); o2.assign(l.sk, 0xEE); if (k == 0) l.keypair_derand(o1.data(), o2.data(), co.data()); else { size_t off = 0; rb_hook().f = [&](uint8_t *o, size_t z) { for (size_t j = 0; j < z; j++) o[j] = co[off++ % 64]; }; l.keypair(o1.data(), o2.data()); } c.eq(o1, pk, log + ": public key"); c.eq(o2, sk, log + ": secret key"); }
      else { model::enc(l.k, pk.data(), m.data(), ct.data(), ss.data());
        if (k == 2) { if (s.coin(1, 2)) { tamper(s, l.k, ct); model::dec(l.k, ct.data(), sk.data(), ss.data()); } o1.assign(32, 0xEE); l.dec(o1.data(), ct.data(), sk.data()); c.eq(o1, ss, log + ": decapsulated secret"); }
        else { o1.assign(l.ct, 0xEE); o2.assign(32, 0xEE); if (k == 1) l.enc_derand(o1.data(), o2.data(), pk.data(), m.data()); else l.enc(o1.data(), o2.data(), pk.data()); c.eq(o1, ct, log + ": ciphertext"); c.eq(o2, ss, log + ": shared secret"); } }
      rb_hook().f = nullptr; if (i == 0) c.label(std::string("first operation ") + N[k]);
    }
    c.nontrivial(); if (c.sampling()) c.sample(log);
  }); c.last().isolate = true;
  c.add("histories", 200000, 4000000, [](Src &s, Ctx &c) {
    std::vector<Op> ops; std::string log; unsigned n = 3 + s.draw(9); bool rep = false; size_t last = ~0u; static const char *N[] = {".keypair", ".enc", ".dec"};
    for (unsigned i = 0; i < n; i++) {
      if (!ops.empty() && s.coin(2, 5)) { size_t j = s.draw(ops.size() - 1); log += strf(" repeat#%zu", j); if (j != last) rep = true; last = j; run_op(s, c, ops[j], false, log); continue; }
      Op o; o.kind = ops.empty() ? 0 : s.draw(2); Op *kp = nullptr; 
      if (o.kind) { std::vector<Op *> ks; for (auto &x : ops) if (x.kind == 0) ks.push_back(&x); kp = ks[s.draw(ks.size() - 1)]; o.l = kp->l; } else o.l = &pick_lib(s, LB);
      if (o.kind == 0) o.in1 = gen_coins(s, 64);
      else if (o.kind == 1) { o.in1 = s.coin(1, 4) ? s.bytes(o.l->pk, 1) : kp->out1; o.in2 = gen_coins(s, 32); }
      else { Op *en = nullptr; for (auto &x : ops) if (x.kind == 1 && x.in1 == kp->out1) en = &x; o.in1 = en ? en->out1 : s.bytes(o.l->ct, 2); if (en && s.coin(1, 2)) tamper(s, o.l->k, o.in1); o.in2 = s.coin(1, 5) ? s.bytes(o.l->sk, 1) : kp->out2; }
      bool derived = false;
      if (s.coin(1, 3)) { std::vector<Op *> same; for (auto &x : ops) if (x.kind == o.kind && x.l == o.l) same.push_back(&x); if (!same.empty()) { Op *b = same[s.draw(same.size() - 1)]; o.in1 = b->in1; o.in2 = b->in2; Bytes &t = (!o.in2.empty() && s.coin(1, 2)) ? o.in2 : o.in1; t[s.draw(t.size() - 1)] ^= 1u << s.draw(7); derived = true; } }
      if (derived) log += " (one bit of an earlier input changed)";
      log += " " + strf("#%zu=", ops.size()) + o.l->name() + N[o.kind]; ops.push_back(o); last = ops.size() - 1; run_op(s, c, ops.back(), true, log);
      if (derived) { Op &o = ops.back(); Bytes e1(o.out1.size()), e2(o.out2.size()); if (o.kind == 0) model::keypair(o.l->k, o.in1.data(), e1.data(), e2.data()); else if (o.kind == 1) model::enc(o.l->k, o.in1.data(), o.in2.data(), e1.data(), e2.data()); else model::dec(o.l->k, o.in1.data(), o.in2.data(), e1.data()); c.eq(o.out1, e1, log + ": first output differs from the history-free model"); c.eq(o.out2, e2, log + ": second output differs from the history-free model"); }
    }
    // finally everything once more, in reverse
    for (size_t j = ops.size(); j-- > 0;) { run_op(s, c, ops[j], false, log + strf(" final repeat#%zu", j)); if (ops.size() > 1) rep = true; }
    // and against a freshly loaded state: the model knows no history
    const Op &o = ops[s.draw(ops.size() - 1)]; Bytes e1(o.out1.size()), e2(o.out2.size());
    if (o.kind == 0) model::keypair(o.l->k, o.in1.data(), e1.data(), e2.data()), c.eq(o.out1, e1, log + ": differs from the history-free model");
    if (rep) c.nontrivial(); if (c.sampling()) c.sample(log);
  }, true);
  // many repetitions inside one process: counters, caches
  c.add("long_histories", 2000, 4000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); Bytes co = gen_coins(s, 64), m = gen_coins(s, 32); Key k = lib_keypair(l, co); Bytes ct(l.ct), ss(32), ct2(l.ct), ss2(32), pk(l.pk), sk(l.sk); l.enc_derand(ct.data(), ss.data(), k.pk.data(), m.data()); Bytes bad = ct; bad[s.draw(bad.size() - 1)] ^= 1; Bytes rj(32); l.dec(rj.data(), bad.data(), k.sk.data());
    unsigned n = 600; for (unsigned i = 0; i < n; i++) {
      switch (i % 3) { case 0: l.keypair_derand(pk.data(), sk.data(), co.data()); if (pk != k.pk || sk != k.sk) c.fail(strf("%s key generation changed after %u operations", l.name().c_str(), i)); break; case 1: l.enc_derand(ct2.data(), ss2.data(), k.pk.data(), m.data()); if (ct2 != ct || ss2 != ss) c.fail(strf("%s encapsulation changed after %u operations", l.name().c_str(), i)); break; default: l.dec(ss2.data(), (i & 1 ? ct : bad).data(), k.sk.data()); if (ss2 != (i & 1 ? ss : rj)) c.fail(strf("%s decapsulation changed after %u operations", l.name().c_str(), i)); } }
    c.evals += n; c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" %u operations", n));
  });
  // one operation more often than a 16-bit counter can count
  c.add_enum("very_many_repetitions", LB.size() * 3, [tier](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; unsigned op = (unsigned)(i / LB.size()) % 3, n = tier ? 400000 : 66000; Rng g(i + 11); Bytes co(64), m(32); for (auto &x : co) x = g.next(); for (auto &x : m) x = g.next(); Key k = lib_keypair(l, co); Bytes ct(l.ct), ss(32), a(l.pk > l.ct ? l.pk : l.ct), b(l.sk); l.enc_derand(ct.data(), ss.data(), k.pk.data(), m.data()); Bytes bad = ct, rj(32); bad[7] ^= 4; l.dec(rj.data(), bad.data(), k.sk.data());
    for (unsigned j = 0; j < n; j++) { bool ok; if (op == 0) { l.keypair_derand(a.data(), b.data(), co.data()); ok = !memcmp(a.data(), k.pk.data(), l.pk) && b == k.sk; } else if (op == 1) { l.enc_derand(a.data(), b.data(), k.pk.data(), m.data()); ok = !memcmp(a.data(), ct.data(), l.ct) && !memcmp(b.data(), ss.data(), 32); } else { bool x = j % 3 == 0; l.dec(a.data(), (x ? bad : ct).data(), k.sk.data()); ok = !memcmp(a.data(), (x ? rj : ss).data(), 32); }
      if (!ok) c.fail(l.name() + strf(": operation %u gives another result after %u repetitions", op, j)); }
    c.evals += n; c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" operation %u, %u repetitions", op, n));
  }); c.last().cpu = 600;
  // arguments and stack anywhere in the address space
  c.add("far_placements", 60000, 2000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); Bytes co = gen_coins(s, 64), m = gen_coins(s, 32); Key k = lib_keypair(l, co); Bytes ct(l.ct), ss(32), rj(32); l.enc_derand(ct.data(), ss.data(), k.pk.data(), m.data()); if (s.coin(1, 2)) tamper(s, l.k, ct); l.dec(rj.data(), ct.data(), k.sk.data());
    unsigned op = s.draw(3); std::string w = l.name(); bool st = s.coin(1, 3); size_t sr = st ? s.draw(regions().size() - 1) : 0; auto run = [&](std::function<void()> f) { if (st) on_stack(sr, f); else f(); };
    if (st) w += std::string(" (stack ") + regions()[sr].what + ")"; Placer P(s);
    if (op == 0) { uint8_t *a = P.get(l.pk), *b = P.get(l.sk), *x = P.put(co); run([&] { l.keypair_derand(a, b, x); }); w += " key generation at " + P.log; c.eq(a, k.pk.data(), l.pk, w + ": public key"); c.eq(b, k.sk.data(), l.sk, w + ": secret key"); P.verify(c, w); }
    else if (op == 1) { Bytes e(l.ct), es(32); l.enc_derand(e.data(), es.data(), k.pk.data(), m.data()); uint8_t *a = P.get(l.ct), *b = P.get(32), *x = P.put(k.pk), *y = P.put(m); run([&] { l.enc_derand(a, b, x, y); }); w += " encapsulation at " + P.log; c.eq(a, e.data(), l.ct, w + ": ciphertext"); c.eq(b, es.data(), 32, w + ": secret"); P.verify(c, w); }
    else if (op == 2) { uint8_t *a = P.get(32), *x = P.put(ct), *y = P.put(k.sk); run([&] { l.dec(a, x, y); }); w += " decapsulation at " + P.log; c.eq(a, rj.data(), 32, w + ": secret"); P.verify(c, w); }
    else { static const char *N[] = {"shake128", "shake256", "sha3_256", "sha3_512"}; unsigned h = s.draw(3); void *f = l.find(N[h]); if (!f) c.discard(); size_t il = gen_len(s, 136, 400), ol = h == 2 ? 32 : h == 3 ? 64 : gen_len(s, 136, 400); Bytes in = s.bytes(il, 0), e = h == 0 ? model::shake(128, in, ol) : h == 1 ? model::shake(256, in, ol) : model::sha3(h == 2 ? 256 : 512, in); uint8_t *a = P.get(ol), *x = P.put(in);
      typedef void (*SH)(uint8_t *, size_t, const uint8_t *, size_t); run([&] { if (h < 2) ((SH)f)(a, ol, x, il); else ((void (*)(uint8_t *, const uint8_t *, size_t))f)(a, x, il); }); w += std::string(" ") + N[h] + " at " + P.log; if (ol) c.eq(a, e.data(), ol, w); P.verify(c, w); }
    c.nontrivial(); if (c.sampling()) c.sample(w);
  });
  // every alignment of every argument
  c.add_enum("alignments", LB.size() * 64 * 3, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; size_t al = (i / LB.size()) % 64; unsigned which = (unsigned)(i / LB.size() / 64); Bytes co(64), m(32); Rng g(al + 3); for (auto &x : co) x = g.next(); for (auto &x : m) x = g.next();
    Key k = lib_keypair(l, co); Bytes ct(l.ct), ss(32), rj(32); l.enc_derand(ct.data(), ss.data(), k.pk.data(), m.data()); uint8_t *A = ARENA, *B = ARENA + 8192, *C = ARENA + 16384, *D = ARENA + 24576; auto off = [&](unsigned j) { return which == 0 ? al : (which == 1 ? (j & 1 ? al : 0) : (j & 1 ? 0 : al) + j); };
    uint8_t *p = A + off(0), *q = B + off(1), *r = C + off(2), *t = D + off(3);
    memcpy(r, co.data(), 64); l.keypair_derand(p, q, r); c.eq(p, k.pk.data(), l.pk, l.name() + strf(" public key at alignment %zu", al)); c.eq(q, k.sk.data(), l.sk, l.name() + strf(" secret key at alignment %zu", al));
    memcpy(r, k.pk.data(), l.pk); memcpy(t, m.data(), 32); l.enc_derand(p, q, r, t); c.eq(p, ct.data(), l.ct, l.name() + strf(" ciphertext at alignment %zu", al)); c.eq(q, ss.data(), 32, l.name() + strf(" secret at alignment %zu", al));
    memcpy(r, ct.data(), l.ct); memcpy(t, k.sk.data(), l.sk); l.dec(p, r, t); c.eq(p, ss.data(), 32, l.name() + strf(" decapsulated secret at alignment %zu", al)); r[5] ^= 1; l.dec(p, r, t); l.dec(rj.data(), Bytes(r, r + l.ct).data(), k.sk.data()); c.eq(p, rj.data(), 32, l.name() + strf(" rejection secret at alignment %zu", al));
    c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" alignment %zu", al));
  });
}

// C19: verify / cmov / cmov_int16 exact for every length, alignment and content.
#include "hashgen.hpp"
DEFINE_RANDOMBYTES
static std::vector<KLib> LB;
typedef int (*ver_t)(const uint8_t *, const uint8_t *, size_t);
typedef void (*cm_t)(uint8_t *, const uint8_t *, size_t, uint8_t);
typedef void (*cm16_t)(int16_t *, int16_t, uint16_t);
// a and b are surrounded by bytes that differ, so reading outside the range changes the verdict
struct Two { Bytes a, b; size_t oa, ob, n; Two(const Bytes &x, const Bytes &y, size_t oa, size_t ob) : a(oa + x.size() + 64, 0x3C), b(ob + y.size() + 64, 0xC3), oa(oa), ob(ob), n(x.size()) { if (n) memcpy(a.data() + oa, x.data(), n), memcpy(b.data() + ob, y.data(), n); } };
static void ver(Ctx &c, const KLib &l, const Bytes &x, const Bytes &y, size_t oa, size_t ob, const std::string &what) {
  ver_t f = l.fn<ver_t>("verify"); if (!f) { c.label("absent: verify"); return; } Two t(x, y, oa, ob); Bytes a0 = t.a, b0 = t.b; int r = f(t.a.data() + oa, t.b.data() + ob, x.size()); int e = x == y ? 0 : 1;
  if (r != e) c.fail(strf("%s verify returned %d, expected %d: %zu bytes, offsets %zu/%zu, %s", l.name().c_str(), r, e, x.size(), oa, ob, what.c_str())); c.check(a0 == t.a && b0 == t.b, "verify changed its arguments");
}
static void cmv(Ctx &c, const KLib &l, const Bytes &x, const Bytes &y, size_t oa, size_t ob, int b) {
  cm_t f = l.fn<cm_t>("cmov"); if (!f) { c.label("absent: cmov"); return; } Two t(x, y, oa, ob); Bytes ea = t.a, eb = t.b; if (b && x.size()) memcpy(ea.data() + oa, y.data(), y.size()); f(t.a.data() + oa, t.b.data() + ob, x.size(), b);
  c.check(ea == t.a, strf("%s cmov(b=%d, %zu bytes, offsets %zu/%zu): wrong destination", l.name().c_str(), b, x.size(), oa, ob)); c.check(eb == t.b, "cmov changed its source");
}
static Bytes rnd(size_t n, uint64_t seed) { Rng r(seed); Bytes b(n); for (auto &x : b) x = r.next(); return b; }
void define_check(Check &c, int tier) {
  c.id = "C19";
  c.rule = "verify/cmov/cmov_int16 of every library against byte-wise definitions, buffers surrounded by differing bytes. Non-trivial: operands differ in at least one byte (verify), or source differs from destination (moves).";
  LB = load_all("std"); 
  const size_t MAXL = tier ? 1700 : 900;
  // every length, every position, every single bit; index = lib x length
  c.add_enum("single_differences", LB.size() * (MAXL + 1), [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; size_t n = i / LB.size(); Bytes x = rnd(n, n + 1); ver(c, l, x, x, n % 32, (n / 3) % 32, "equal");
    Bytes y = x; for (size_t p = 0; p < n; p++) for (int b = 0; b < 8; b++) { y[p] ^= 1 << b; ver(c, l, x, y, p % 32, (p / 5) % 32, strf("bit %d of byte %zu differs", b, p)); y[p] ^= 1 << b; }
    for (size_t p = 0; p < n; p++) { y[p] ^= 0xff; cmv(c, l, x, y, p % 32, (p * 7) % 32, p & 1); y[p] = x[p]; }
    c.evals += 8 * n; c.nontrivial(); if (c.sampling()) c.sample(strf("%s length %zu, every bit", l.name().c_str(), n));
  });
  c.add_enum("kem_lengths", LB.size() * 8, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; static const size_t N[] = {768, 1088, 1568, 800, 1184, 1632, 2400, 3168}; size_t n = N[(i / LB.size()) % 8]; Bytes x = rnd(n, n), y = x; ver(c, l, x, x, 0, 0, "equal");
    for (size_t p = 0; p < n; p++) for (int b = 0; b < 8; b++) { y[p] ^= 1 << b; ver(c, l, x, y, 0, p % 2, strf("bit %d of byte %zu differs", b, p)); y[p] ^= 1 << b; } c.evals += 8 * n; c.nontrivial(); if (c.sampling()) c.sample(strf("%s length %zu, every bit", l.name().c_str(), n));
  });
  // all pairs of positions with equal differences: cancel under xor or addition
  c.add_enum("pairs_of_differences", LB.size() * 200, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; size_t n = 2 + (i / LB.size()) % 199; Bytes x = rnd(n, 3 * n), y = x; static const uint8_t D[] = {0x80, 0x01, 0xff, 0x40};
    for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) { uint8_t d = D[(p + q) % 4]; bool neg = (p ^ q) & 1; uint8_t sp = y[p], sq = y[q]; y[p] = neg ? sp + d : sp ^ d; y[q] = neg ? sq - d : sq ^ d; ver(c, l, x, y, 0, 0, strf("bytes %zu and %zu differ by %02x", p, q, d)); y[p] = sp; y[q] = sq; }
    c.evals += n * (n - 1) / 2; c.nontrivial(); if (c.sampling()) c.sample(strf("length %zu, all pairs", n));
  });
  // exactly n groups of g bytes differ, n around the wrap-around of 8- and 16-bit counters and sums
  c.add_enum("counted_differences", LB.size() * 8, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; static const size_t G[] = {1, 2, 3, 4, 8, 16, 32, 64}; size_t g = G[i / LB.size()]; static const size_t N[] = {1, 2, 4, 8, 16, 32, 64, 128, 255, 256, 257, 384, 512, 768, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 65536, 131072};
    for (size_t n : N) for (int how = 0; how < 6; how++) for (size_t extra : {(size_t)0, (size_t)1, (size_t)5}) { if (g * n > (2u << 20)) continue; size_t tot = n + (how & 1 ? 3 : 0); Bytes x = rnd(tot * g + extra, n + how), y = x;
      for (size_t j = 0; j < n; j++) { size_t o = (j + (how & 1 ? 2 : 0)) * g; switch (how / 2) { case 0: y[o + j % g] ^= 1u << (j % 8); break; case 1: y[o] ^= 0x80; break; default: for (size_t b = 0; b < g; b++) y[o + b] += 1; } }
      ver(c, l, x, y, how, 0, strf("%zu groups of %zu bytes differ", n, g)); c.evals++; }
    c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" groups of %zu bytes", g));
  }); c.last().cpu = 300;
  // lengths around every power of two up to 2^22, where an index, a counter or a length in a narrower type wraps
  c.add_enum("lengths_around_powers_of_two", LB.size() * 16, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[i % LB.size()]; size_t q = (size_t)1 << (7 + i / LB.size()); Bytes X = rnd(q + 64, q), Y = X; for (auto &b : Y) b = ~b;
    for (int d : {-33, -32, -1, 0, 1, 7, 32, 37}) { size_t n = q + d; Bytes x(X.begin(), X.begin() + n), y = x; ver(c, l, x, y, d & 3, 0, "equal"); for (size_t p : {(size_t)0, n / 2, n - 1, std::min(n - 1, q - 1), std::min(n - 1, q)}) { y[p] ^= 1u << (p % 8); ver(c, l, x, y, 0, d & 3, strf("byte %zu differs", p)); y[p] = x[p]; } Bytes z(Y.begin(), Y.begin() + n); cmv(c, l, x, z, d & 3, 1, 1); cmv(c, l, x, z, 0, d & 3, 0); c.evals += 7; }
    c.nontrivial(); if (c.sampling()) c.sample(l.name() + strf(" lengths around %zu", q));
  });
  c.add("verify_patterns", 12000000, 60000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); size_t n; switch (s.weighted({3, 4, 3, 3})) { case 0: n = s.draw(40); break; case 1: n = s.draw(1700); break; case 2: n = 32 * s.draw(60) + s.draw(2); break; default: n = s.draw(9000); }
    Bytes x = s.bytes(n, 1), y = x; std::string w = "equal";
    if (n) switch (s.weighted({2, 4, 4, 4, 4, 3, 3, 2, 2})) {
      case 0: break;
      case 1: { y[s.draw(n - 1)] ^= 1u << s.draw(7); w = "one bit"; break; }
      case 2: { size_t k = 2 << s.draw(9); uint8_t d = 1 + s.draw(254); for (size_t j = 0; j < k; j++) y[s.draw(n - 1)] ^= d; w = "many equal xor differences"; break; }
      case 3: { uint8_t d = 1u << s.draw(7); for (auto &b : y) b ^= d; w = "all bytes by one bit"; break; }
      case 4: { size_t st = 1 + s.draw(63), o = s.draw(n - 1); uint8_t d = 1 + s.draw(254); for (size_t j = o; j < n; j += st) y[j] ^= d; w = strf("every %zu-th byte", st); break; }
      case 5: { size_t cnt = 256 >> s.draw(3); uint8_t d = s.coin(1, 2) ? 1 : 1u << s.draw(7); size_t o = s.draw(n - 1); for (size_t j = 0; j < cnt && j < n; j++) y[(o + j) % n] += d; w = strf("%zu bytes by the same sum", cnt); break; }
      case 6: { size_t p = s.draw(n - 1); for (size_t j = p; j < n; j++) y[j] = ~y[j]; w = "complemented tail"; break; }
      case 7: { y = s.bytes(n, 1); w = "unrelated"; break; }
      default: { std::rotate(y.begin(), y.begin() + s.draw(n - 1), y.end()); w = "rotated"; }
    }
    ver(c, l, x, y, s.draw(63), s.draw(63), w); if (x != y) c.nontrivial(); c.label(w.substr(0, 20)); if (c.sampling()) c.sample(strf("%zu bytes, %s", n, w.c_str()));
  }, true);
  c.add("cmov_patterns", 10000000, 60000000, [](Src &s, Ctx &c) {
    const KLib &l = pick_lib(s, LB); size_t n = s.coin(1, 2) ? s.draw(130) : s.draw(4000); Bytes x = s.bytes(n, 1), y = s.coin(1, 4) ? x : s.bytes(n, 1); if (n && s.coin(1, 3)) y[s.draw(n - 1)] ^= 1u << s.draw(7); int b = s.draw(1);
    cmv(c, l, x, y, s.draw(63), s.draw(63), b); if (x != y) c.nontrivial(); c.label(strf("condition %d", b)); if (c.sampling()) c.sample(strf("%zu bytes b=%d", n, b));
  }, true);
  // every 16-bit value against a grid of previous contents, both conditions
  c.add_enum("cmov_int16_all_values", 65536, [](Src &s, Ctx &c) {
    int16_t v = (int16_t)(uint16_t)s.draw(UINT64_MAX); bool any = false;
    for (auto &l : LB) { cm16_t f = l.fn<cm16_t>("cmov_int16"); if (!f) continue; any = true; Rng r(v + 70000);
      for (int k = 0; k < 24; k++) { static const int16_t G[] = {0, 1, -1, 1664, 1665, -1664, 3328, 3329, 32767, -32768, 0x00ff, (int16_t)0xff00}; int16_t old = k < 12 ? G[k] : (int16_t)r.next(); for (int b = 0; b < 2; b++) { int16_t cell[3] = {0x1234, old, 0x5678}; f(&cell[1], v, b); int16_t e = b ? v : old; if (cell[1] != e || cell[0] != 0x1234 || cell[2] != 0x5678) c.fail(strf("%s cmov_int16(old %d, v %d, b %d) gave %d", l.name().c_str(), old, v, b, cell[1])); } } }
    if (!any) c.label("absent: cmov_int16"); c.evals += 48 * LB.size() - 1; c.nontrivial(); if (c.sampling()) c.sample(strf("value %d", v));
  });
  c.add_enum("beyond_4GiB", LB.size() / 3 * 2, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[(i / 2) * 3 % LB.size()]; ver_t f = l.fn<ver_t>("verify"); if (!f) return; uint64_t n = (1ull << 32) + 77; Tiled A(n), B(n); if (!A.p || !B.p) return;
    for (Tiled *t : {&A, &B}) if (mmap(t->p + t->n - t->unit, t->unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return;
    if (i & 1) A.p[n - 1 - (i / 2) * 3] ^= 4; int r = f(A.p, B.p, n); c.check(r == (int)(i & 1), strf("%s verify of 2^32+77 bytes with %d difference returned %d", l.name().c_str(), (int)(i & 1), r)); c.nontrivial(); c.sample("2^32+77 bytes");
  });
  c.last().cpu = 120;
  c.add_enum("cmov_beyond_4GiB", LB.size() / 3 * 2, [](Src &s, Ctx &c) {
    uint64_t i = s.draw(UINT64_MAX); const KLib &l = LB[(i / 2) * 3 % LB.size()]; cm_t f = l.fn<cm_t>("cmov"); if (!f) return; int b = i & 1; uint64_t n = (1ull << 32) + 77; Tiled A(n + 64), B(n + 64); if (!A.p || !B.p) return;
    for (Tiled *t : {&A, &B}) if (mmap(t->p + t->n - t->unit, t->unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return;
    for (Tiled *t : {&A, &B}) { uint8_t v = t == &A ? 0x11 : 0x6E; memset(t->p, v, t->unit); memset(t->p + t->n - t->unit, v, t->unit); } f(A.p, B.p, n, b); size_t o = A.n - A.unit; std::string w = strf("%s cmov(b=%d) of 2^32+77 bytes: ", l.name().c_str(), b); for (size_t j = 0; j < A.unit; j++) { c.check(A.p[j] == (b ? 0x6E : 0x11), w + "wrong at the beginning"); c.check(A.p[o + j] == (b && o + j < n ? 0x6E : 0x11), w + "wrong at the end"); c.check(B.p[j] == 0x6E && B.p[o + j] == 0x6E, w + "source changed"); }
    c.nontrivial(); c.sample(strf("cmov of 2^32+77 bytes, b=%d", b));
  });
  c.last().cpu = 120;
}

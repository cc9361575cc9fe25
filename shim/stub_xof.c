/* Replacement of the hash layer used by the sampling check: real Keccak, except that the streams of
   SHAKE128(34-byte message) and SHAKE256(33-byte message) come from a program supplied by the harness. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "fips202.h"
#if __has_include("fips202x4.h")
#include "fips202x4.h"
#define HAVE_X4
#endif
extern void vf_stream(const uint8_t *msg, size_t msglen, uint64_t off, uint8_t *out, size_t n);
#define MAG0 0x9d7f3c51e2a46b08ull
#define MAG1 0x13579bdf2468ace0ull
#define ROL(x, n) (((x) << (n)) | ((x) >> (64 - (n))))
static void f1600(uint64_t *A) {
  static const int rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}, pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  static const uint64_t RC[24] = {0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull, 0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull};
  for (int r = 0; r < 24; r++) { uint64_t b[5], t; for (int i = 0; i < 5; i++) b[i] = A[i] ^ A[i + 5] ^ A[i + 10] ^ A[i + 15] ^ A[i + 20]; for (int i = 0; i < 5; i++) { t = b[(i + 4) % 5] ^ ROL(b[(i + 1) % 5], 1); for (int j = 0; j < 25; j += 5) A[j + i] ^= t; }
    t = A[1]; for (int i = 0; i < 24; i++) { uint64_t x = A[pil[i]]; A[pil[i]] = ROL(t, rot[i]); t = x; }
    for (int j = 0; j < 25; j += 5) { for (int i = 0; i < 5; i++) b[i] = A[j + i]; for (int i = 0; i < 5; i++) A[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]); } A[0] ^= RC[r]; }
}
static void xorb(uint64_t *s, unsigned p, uint8_t b) { s[p / 8] ^= (uint64_t)b << 8 * (p % 8); }
static uint8_t getb(const uint64_t *s, unsigned p) { return (uint8_t)(s[p / 8] >> 8 * (p % 8)); }
static unsigned absorb(uint64_t *s, unsigned pos, unsigned r, const uint8_t *in, size_t n) { while (n--) { if (pos == r) { f1600(s); pos = 0; } xorb(s, pos++, *in++); } return pos; }
static int special(unsigned r, unsigned pos) { return (r == 168 && pos == 34) || (r == 136 && pos == 33); }
/* turn an absorbed state into a squeezing state; single-block special messages become programmed streams */
static unsigned finish(uint64_t *s, unsigned pos, unsigned r, uint8_t ds) {
  if (ds == 0x1F && special(r, pos)) { int single = 1; for (unsigned i = pos; i < 200; i++) if (getb(s, i)) single = 0; if (single) { s[21] = pos; s[22] = MAG0; s[23] = MAG1 ^ r; s[24] = 0; return r; } }
  if (pos == r) { f1600(s); pos = 0; }
  xorb(s, pos, ds); xorb(s, r - 1, 0x80); return r;
}
static int programmed(const uint64_t *s, unsigned r) { return s[22] == MAG0 && s[23] == (MAG1 ^ r); }
static unsigned squeeze(uint64_t *s, unsigned pos, unsigned r, uint8_t *out, size_t n) {
  if (programmed(s, r)) { uint8_t m[40]; for (int i = 0; i < 40; i++) m[i] = getb(s, i); vf_stream(m, s[21], s[24], out, n); s[24] += n; return pos; }
  while (n--) { if (pos == r) { f1600(s); pos = 0; } *out++ = getb(s, pos++); } return pos;
}
#define SHAKE(N, R) \
  void shake##N##_init(keccak_state *st) { memset(st->s, 0, 200); st->pos = 0; } \
  void shake##N##_absorb(keccak_state *st, const uint8_t *in, size_t n) { st->pos = absorb(st->s, st->pos, R, in, n); } \
  void shake##N##_finalize(keccak_state *st) { st->pos = finish(st->s, st->pos, R, 0x1F); } \
  void shake##N##_squeeze(uint8_t *out, size_t n, keccak_state *st) { st->pos = squeeze(st->s, st->pos, R, out, n); } \
  void shake##N##_absorb_once(keccak_state *st, const uint8_t *in, size_t n) { shake##N##_init(st); shake##N##_absorb(st, in, n); shake##N##_finalize(st); } \
  void shake##N##_squeezeblocks(uint8_t *out, size_t nb, keccak_state *st) { (void)squeeze(st->s, R, R, out, nb * R); } \
  void shake##N(uint8_t *out, size_t n, const uint8_t *in, size_t m) { keccak_state st; shake##N##_absorb_once(&st, in, m); shake##N##_squeeze(out, n, &st); }
SHAKE(128, 168)
SHAKE(256, 136)
static void sha3(uint8_t *h, size_t hl, unsigned r, const uint8_t *in, size_t n) { uint64_t s[25] = {0}; unsigned p = finish(s, absorb(s, 0, r, in, n), r, 0x06); squeeze(s, p, r, h, hl); }
void sha3_256(uint8_t h[32], const uint8_t *in, size_t n) { sha3(h, 32, 136, in, n); }
void sha3_512(uint8_t h[64], const uint8_t *in, size_t n) { sha3(h, 64, 72, in, n); }
#ifdef HAVE_X4
static void get_lane(const keccakx4_state *st, int j, uint64_t *s) { const uint64_t *p = (const uint64_t *)st; for (int i = 0; i < 25; i++) memcpy(&s[i], &p[4 * i + j], 8); }
static void put_lane(keccakx4_state *st, int j, const uint64_t *s) { uint8_t *p = (uint8_t *)st; for (int i = 0; i < 25; i++) memcpy(p + 8 * (4 * i + j), &s[i], 8); }
#define SHAKE4(N, R) \
  void shake##N##x4_absorb_once(keccakx4_state *st, const uint8_t *in0, const uint8_t *in1, const uint8_t *in2, const uint8_t *in3, size_t n) { \
    const uint8_t *in[4] = {in0, in1, in2, in3}; for (int j = 0; j < 4; j++) { uint64_t s[25] = {0}; finish(s, absorb(s, 0, R, in[j], n), R, 0x1F); put_lane(st, j, s); } } \
  void shake##N##x4_squeezeblocks(uint8_t *o0, uint8_t *o1, uint8_t *o2, uint8_t *o3, size_t nb, keccakx4_state *st) { \
    uint8_t *o[4] = {o0, o1, o2, o3}; for (int j = 0; j < 4; j++) { uint64_t s[25]; get_lane(st, j, s); squeeze(s, R, R, o[j], nb * R); put_lane(st, j, s); } } \
  void shake##N##x4(uint8_t *o0, uint8_t *o1, uint8_t *o2, uint8_t *o3, size_t n, const uint8_t *in0, const uint8_t *in1, const uint8_t *in2, const uint8_t *in3, size_t m) { \
    shake##N(o0, n, in0, m); shake##N(o1, n, in1, m); shake##N(o2, n, in2, m); shake##N(o3, n, in3, m); }
SHAKE4(128, 168)
SHAKE4(256, 136)
#endif

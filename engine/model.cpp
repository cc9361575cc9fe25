#include "model.hpp"
#include <cstring>
#include <algorithm>
#include <memory>

namespace model {
// ------------------------------------------------------------ Keccak (FIPS 202 section 3)
namespace {
struct KConst {
  int rho[25]; uint64_t rc[24];
  KConst() {
    // rho: section 3.2.2
    int x = 1, y = 0; rho[0] = 0;
    for (int t = 0; t < 24; t++) { rho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    // rc: section 3.2.5, LFSR of algorithm 5
    auto rcbit = [](int t) -> int {
      t %= 255; if (t == 0) return 1;
      unsigned R = 1; // bit i = R[i] ; start R = 10000000 (R[0]=1)
      for (int i = 1; i <= t; i++) { R <<= 1; int r8 = (R >> 8) & 1; if (r8) R ^= 0x171; }
      return R & 1;
    };
    for (int ir = 0; ir < 24; ir++) { uint64_t v = 0; for (int j = 0; j <= 6; j++) if (rcbit(j + 7 * ir)) v |= 1ull << ((1 << j) - 1); rc[ir] = v; }
  }
};
const KConst KC;
inline uint64_t rol(uint64_t v, int n) { return n ? (v << n) | (v >> (64 - n)) : v; }
}
void keccak_p(uint64_t A[25], int rounds) {
  for (int ir = 24 - rounds; ir < 24; ir++) {
    uint64_t C[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) { uint64_t d = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x + 5 * y] ^= d; }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rol(A[x + 5 * y], KC.rho[x + 5 * y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    A[0] ^= KC.rc[ir];
  }
}
Sponge::Sponge(unsigned r, uint8_t d, int rd) : rate(r), pos(0), ds(d), fin(false), rounds(rd) { memset(st, 0, sizeof st); }
void Sponge::absorb(const uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) { if (pos == rate) { keccak_p(st, rounds); pos = 0; } st[pos / 8] ^= (uint64_t)p[i] << (8 * (pos % 8)); pos++; }
}
void Sponge::finalize() {
  if (pos == rate) { keccak_p(st, rounds); pos = 0; }
  st[pos / 8] ^= (uint64_t)ds << (8 * (pos % 8)); st[(rate - 1) / 8] ^= 0x80ull << (8 * ((rate - 1) % 8)); pos = rate; fin = true;
}
void Sponge::squeeze(uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) { if (pos == rate) { keccak_p(st, rounds); pos = 0; } p[i] = (uint8_t)(st[pos / 8] >> (8 * (pos % 8))); pos++; }
}
Bytes shake(int bits, const Bytes &in, size_t outlen) { Sponge s(200 - bits / 4, 0x1F); s.absorb(in.data(), in.size()); s.finalize(); Bytes o(outlen); s.squeeze(o.data(), outlen); return o; }
Bytes sha3(int bits, const Bytes &in) { Sponge s(200 - bits / 4, 0x06); s.absorb(in.data(), in.size()); s.finalize(); Bytes o(bits / 8); s.squeeze(o.data(), o.size()); return o; }

// ------------------------------------------------------------ ring
uint16_t modq(int64_t x) { int64_t r = x % Q; return (uint16_t)(r < 0 ? r + Q : r); }
namespace {
int powq(int b, int e) { int64_t r = 1, x = b % Q; while (e) { if (e & 1) r = r * x % Q; x = x * x % Q; e >>= 1; } return (int)r; }
int brv7(int i) { int r = 0; for (int k = 0; k < 7; k++) if (i >> k & 1) r |= 64 >> k; return r; }
struct Tables {
  int z[128];                    // zeta^(2 brv7(i)+1)
  uint32_t ev[128][128];         // ev[j][i] = z_i^j      (evaluate: hat_i = sum_j a_j z_i^j)
  uint32_t in[128][128];         // in[i][j] = z_i^-j /128
  Tables() {
    int inv128 = powq(128, Q - 2);
    for (int i = 0; i < 128; i++) z[i] = powq(17, 2 * brv7(i) + 1);
    for (int i = 0; i < 128; i++) { int zi = powq(z[i], Q - 2); for (int j = 0; j < 128; j++) { ev[j][i] = powq(z[i], j); in[i][j] = (uint32_t)((int64_t)powq(zi, j) * inv128 % Q); } }
  }
};
const Tables &T() { static const Tables t; return t; }
}
int zeta_brv(int i) { return T().z[i]; }
// a(X) mod (X^2 - z_i): even part and odd part evaluated at z_i
Poly ntt(const Poly &a) {
  const Tables &t = T(); uint32_t e[128] = {0}, o[128] = {0};
  for (int j = 0; j < 128; j++) { uint32_t x = a[2 * j], y = a[2 * j + 1]; const uint32_t *r = t.ev[j]; for (int i = 0; i < 128; i++) { e[i] += x * r[i]; o[i] += y * r[i]; } }
  Poly p(256); for (int i = 0; i < 128; i++) { p[2 * i] = e[i] % Q; p[2 * i + 1] = o[i] % Q; } return p;
}
Poly intt(const Poly &a) {
  const Tables &t = T(); uint32_t e[128] = {0}, o[128] = {0};
  for (int i = 0; i < 128; i++) { uint32_t x = a[2 * i], y = a[2 * i + 1]; const uint32_t *r = t.in[i]; for (int j = 0; j < 128; j++) { e[j] += x * r[j]; o[j] += y * r[j]; } }
  Poly p(256); for (int j = 0; j < 128; j++) { p[2 * j] = e[j] % Q; p[2 * j + 1] = o[j] % Q; } return p;
}
Poly mul_ntt(const Poly &a, const Poly &b) {
  Poly c(256);
  for (int i = 0; i < 128; i++) {
    uint64_t a0 = a[2 * i], a1 = a[2 * i + 1], b0 = b[2 * i], b1 = b[2 * i + 1];
    c[2 * i] = (a0 * b0 + a1 * b1 % Q * T().z[i]) % Q; c[2 * i + 1] = (a0 * b1 + a1 * b0) % Q;
  }
  return c;
}
Poly add(const Poly &a, const Poly &b) { Poly c(256); for (int i = 0; i < 256; i++) c[i] = (a[i] + b[i]) % Q; return c; }
Poly sub(const Poly &a, const Poly &b) { Poly c(256); for (int i = 0; i < 256; i++) c[i] = (a[i] + Q - b[i]) % Q; return c; }
Poly schoolbook(const Poly &a, const Poly &b) {
  int64_t r[256] = {0};
  for (int i = 0; i < 256; i++) if (a[i]) for (int j = 0; j < 256; j++) { int64_t v = (int64_t)a[i] * b[j]; if (i + j < 256) r[i + j] += v; else r[i + j - 256] -= v; }
  Poly c(256); for (int i = 0; i < 256; i++) c[i] = modq(r[i]); return c;
}
Bytes byte_encode(int d, const std::vector<uint16_t> &v) {
  Bytes b((v.size() * d + 7) / 8, 0); size_t p = 0;
  for (auto x : v) for (int k = 0; k < d; k++, p++) if (x >> k & 1) b[p / 8] |= 1u << (p % 8);
  return b;
}
std::vector<uint16_t> byte_decode(int d, const uint8_t *b, size_t n) {
  std::vector<uint16_t> v(n, 0); size_t p = 0;
  for (auto &x : v) for (int k = 0; k < d; k++, p++) if (b[p / 8] >> (p % 8) & 1) x |= 1u << k;
  return v;
}
// round half up of 2^d x / q, mod 2^d (q odd and not a divisor: no ties for x in [0,q))
uint16_t compress(int d, unsigned x) { uint64_t n = ((uint64_t)x << d) * 2 + Q; return (uint16_t)((n / (2 * Q)) & ((1u << d) - 1)); }
uint16_t decompress(int d, unsigned y) { return (uint16_t)((2 * (uint64_t)Q * y + (1u << d)) >> (d + 1)); }
Poly cbd(int eta, const uint8_t *buf) {
  Poly p(256); auto bit = [&](size_t i) { return buf[i / 8] >> (i % 8) & 1; };
  for (int i = 0; i < 256; i++) { int x = 0, y = 0; for (int j = 0; j < eta; j++) { x += bit(2 * i * eta + j); y += bit(2 * i * eta + eta + j); } p[i] = modq(x - y); }
  return p;
}
Poly sample_ntt_stream(const std::function<uint8_t(size_t)> &at, size_t *consumed, size_t *rejected) {
  Poly p; p.reserve(256); size_t o = 0, rej = 0;
  while (p.size() < 256) {
    unsigned c0 = at(o), c1 = at(o + 1), c2 = at(o + 2); o += 3;
    unsigned d1 = c0 + 256 * (c1 % 16), d2 = c1 / 16 + 16 * c2;
    if (d1 < (unsigned)Q) p.push_back(d1); else rej++;
    if (p.size() < 256) { if (d2 < (unsigned)Q) p.push_back(d2); else rej++; }
  }
  if (consumed) *consumed = o;
  if (rejected) *rejected = rej;
  return p;
}
const Params &params(int k) {
  static const Params P[3] = {{2, 3, 2, 10, 4, 800, 1632, 768}, {3, 2, 2, 10, 4, 1184, 2400, 1088}, {4, 2, 2, 11, 5, 1568, 3168, 1568}};
  return P[k - 2];
}
const Hashes &std_hashes() {
  static const Hashes h = {
    [](const uint8_t *rho, int x, int y) {
      Sponge s(168, 0x1F); s.absorb(rho, 32); uint8_t xy[2] = {(uint8_t)x, (uint8_t)y}; s.absorb(xy, 2); s.finalize();
      std::vector<uint8_t> buf; 
      return sample_ntt_stream([&](size_t o) { while (o >= buf.size()) { size_t n = buf.size(); buf.resize(n + 168); s.squeeze(&buf[n], 168); } return buf[o]; });
    },
    [](const uint8_t *key, int nonce, size_t len) { Sponge s(136, 0x1F); s.absorb(key, 32); uint8_t n = nonce; s.absorb(&n, 1); s.finalize(); Bytes o(len); s.squeeze(o.data(), len); return o; }};
  return h;
}
static void put(uint8_t *dst, const Bytes &b) { memcpy(dst, b.data(), b.size()); }

void cpa_keygen(int k, const uint8_t *d, uint8_t *pk, uint8_t *sk, const Hashes &h) {
  const Params &P = params(k);
  Bytes in(d, d + 32); in.push_back((uint8_t)k); Bytes g = sha3(512, in); const uint8_t *rho = g.data(), *sigma = g.data() + 32;
  std::vector<Poly> s(k), e(k);
  for (int i = 0; i < k; i++) s[i] = ntt(cbd(P.eta1, h.prf(sigma, i, 64 * P.eta1).data()));
  for (int i = 0; i < k; i++) e[i] = ntt(cbd(P.eta1, h.prf(sigma, k + i, 64 * P.eta1).data()));
  for (int i = 0; i < k; i++) {
    Poly t = e[i];
    for (int j = 0; j < k; j++) t = add(t, mul_ntt(h.sample(rho, j, i), s[j]));   // A[i][j] = SampleNTT(rho || j || i)
    put(pk + 384 * i, byte_encode(12, t)); put(sk + 384 * i, byte_encode(12, s[i]));
  }
  memcpy(pk + 384 * k, rho, 32);
}
static Poly decode12(const uint8_t *p) { Poly a = byte_decode(12, p, 256); for (auto &x : a) x %= Q; return a; }
void cpa_enc(int k, const uint8_t *m, const uint8_t *pk, const uint8_t *r, uint8_t *ct, const Hashes &h) {
  const Params &P = params(k); const uint8_t *rho = pk + 384 * k;
  std::vector<Poly> y(k); 
  for (int i = 0; i < k; i++) y[i] = ntt(cbd(P.eta1, h.prf(r, i, 64 * P.eta1).data()));
  Poly v0(256, 0);
  for (int i = 0; i < k; i++) {
    Poly acc(256, 0); for (int j = 0; j < k; j++) acc = add(acc, mul_ntt(h.sample(rho, i, j), y[j]));  // A^T[i][j] = A[j][i] = SampleNTT(rho||i||j)
    Poly u = add(intt(acc), cbd(P.eta2, h.prf(r, k + i, 64 * P.eta2).data()));
    for (auto &x : u) x = compress(P.du, x);
    put(ct + 32 * P.du * i, byte_encode(P.du, u));
    v0 = add(v0, mul_ntt(decode12(pk + 384 * i), y[i]));
  }
  Poly v = add(intt(v0), cbd(P.eta2, h.prf(r, 2 * k, 64 * P.eta2).data()));
  for (int i = 0; i < 256; i++) v[i] = (v[i] + decompress(1, m[i / 8] >> (i % 8) & 1)) % Q;
  for (auto &x : v) x = compress(P.dv, x);
  put(ct + 32 * P.du * k, byte_encode(P.dv, v));
}
void cpa_dec(int k, const uint8_t *ct, const uint8_t *sk, uint8_t *m) {
  const Params &P = params(k); Poly acc(256, 0);
  for (int i = 0; i < k; i++) { Poly u = byte_decode(P.du, ct + 32 * P.du * i, 256); for (auto &x : u) x = decompress(P.du, x); acc = add(acc, mul_ntt(decode12(sk + 384 * i), ntt(u))); }
  Poly v = byte_decode(P.dv, ct + 32 * P.du * k, 256); for (auto &x : v) x = decompress(P.dv, x);
  Poly w = sub(v, intt(acc)); for (auto &x : w) x = compress(1, x);
  put(m, byte_encode(1, w));
}
void keypair(int k, const uint8_t *coins, uint8_t *pk, uint8_t *sk, const Hashes &h) {
  const Params &P = params(k); cpa_keygen(k, coins, pk, sk, h);
  memcpy(sk + 384 * k, pk, P.pk); put(sk + 384 * k + P.pk, sha3(256, Bytes(pk, pk + P.pk))); memcpy(sk + P.sk - 32, coins + 32, 32);
}
void enc(int k, const uint8_t *pk, const uint8_t *coins, uint8_t *ct, uint8_t *ss, const Hashes &h) {
  const Params &P = params(k); Bytes in(coins, coins + 32), hp = sha3(256, Bytes(pk, pk + P.pk)); in.insert(in.end(), hp.begin(), hp.end());
  Bytes g = sha3(512, in); cpa_enc(k, coins, pk, g.data() + 32, ct, h); memcpy(ss, g.data(), 32);
}
bool dec(int k, const uint8_t *ct, const uint8_t *sk, uint8_t *ss, const Hashes &h) {
  const Params &P = params(k); const uint8_t *pk = sk + 384 * k, *hp = pk + P.pk, *z = hp + 32;
  Bytes m(32); cpa_dec(k, ct, sk, m.data()); Bytes in = m; in.insert(in.end(), hp, hp + 32); Bytes g = sha3(512, in);
  Bytes c2(P.ct); cpa_enc(k, m.data(), pk, g.data() + 32, c2.data(), h);
  if (!memcmp(c2.data(), ct, P.ct)) { memcpy(ss, g.data(), 32); return true; }
  Bytes zin(z, z + 32); zin.insert(zin.end(), ct, ct + P.ct); put(ss, shake(256, zin, 32)); return false;
}

// ------------------------------------------------------------ AES-256 (FIPS 197)
namespace {
uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); }
uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
struct SBox { uint8_t s[256]; SBox() { for (int i = 0; i < 256; i++) { uint8_t inv = 0; if (i) { inv = 1; for (int k = 0; k < 254; k++) inv = gm(inv, i); } uint8_t r = 0x63; for (int k = 0; k < 5; k++) r ^= (uint8_t)((inv << k) | (inv >> (8 - k))); s[i] = r; } } };
const SBox SB;
}
void aes256_ecb(const uint8_t key[32], const uint8_t in[16], uint8_t out[16]) {
  uint8_t w[60][4]; memcpy(w, key, 32); uint8_t rc = 1;
  for (int i = 8; i < 60; i++) {
    uint8_t t[4]; memcpy(t, w[i - 1], 4);
    if (i % 8 == 0) { uint8_t x = t[0]; t[0] = SB.s[t[1]] ^ rc; t[1] = SB.s[t[2]]; t[2] = SB.s[t[3]]; t[3] = SB.s[x]; rc = xt(rc); }
    else if (i % 8 == 4) for (auto &x : t) x = SB.s[x];
    for (int k = 0; k < 4; k++) w[i][k] = w[i - 8][k] ^ t[k];
  }
  uint8_t s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i / 4][i % 4];
  for (int r = 1; r <= 14; r++) {
    uint8_t t[16]; for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) t[4 * c + q] = SB.s[s[4 * ((c + q) % 4) + q]];
    if (r < 14) for (int c = 0; c < 4; c++) { uint8_t *p = t + 4 * c, a0 = p[0], a1 = p[1], a2 = p[2], a3 = p[3];
        p[0] = gm(a0, 2) ^ gm(a1, 3) ^ a2 ^ a3; p[1] = a0 ^ gm(a1, 2) ^ gm(a2, 3) ^ a3; p[2] = a0 ^ a1 ^ gm(a2, 2) ^ gm(a3, 3); p[3] = gm(a0, 3) ^ a1 ^ a2 ^ gm(a3, 2); }
    for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[4 * r + i / 4][i % 4];
  }
  memcpy(out, s, 16);
}
static void inc(uint8_t v[16]) { for (int i = 15; i >= 0; i--) if (++v[i]) break; }
void CtrDrbg::update(const uint8_t *prov) {
  uint8_t t[48]; for (int i = 0; i < 3; i++) { inc(v); aes256_ecb(key, v, t + 16 * i); }
  if (prov) for (int i = 0; i < 48; i++) t[i] ^= prov[i];
  memcpy(key, t, 32); memcpy(v, t + 32, 16);
}
void CtrDrbg::init(const uint8_t *e, const uint8_t *p) { uint8_t s[48]; for (int i = 0; i < 48; i++) s[i] = e[i] ^ (p ? p[i] : 0); memset(key, 0, 32); memset(v, 0, 16); update(s); }
void CtrDrbg::generate(uint8_t *out, size_t n) { while (n) { inc(v); uint8_t b[16]; aes256_ecb(key, v, b); size_t m = std::min<size_t>(16, n); memcpy(out, b, m); out += m; n -= m; } update(nullptr); }
}

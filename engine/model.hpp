// Independent reference model, written from FIPS 202, FIPS 203, FIPS 197 and SP 800-90A. Shares no code with /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <functional>
typedef std::vector<uint8_t> Bytes;

namespace model {
// ---- FIPS 202
void keccak_p(uint64_t st[25], int rounds);
struct Sponge {
  uint64_t st[25]; unsigned rate, pos; uint8_t ds; bool fin; int rounds;
  Sponge(unsigned rate, uint8_t ds, int rounds = 24);
  void absorb(const uint8_t *p, size_t n);
  void finalize();
  void squeeze(uint8_t *p, size_t n);
};
Bytes shake(int bits, const Bytes &in, size_t outlen);
Bytes sha3(int bits, const Bytes &in);

// ---- ML-KEM ring (coefficients always canonical in [0,q))
const int Q = 3329, N = 256;
typedef std::vector<uint16_t> Poly;           // 256 coefficients
uint16_t modq(int64_t x);
Poly ntt(const Poly &a);                      // FIPS 203 Alg 9 by its definition (evaluation)
Poly intt(const Poly &a);                     // inverse, by definition
Poly mul_ntt(const Poly &a, const Poly &b);
Poly add(const Poly &a, const Poly &b);
Poly sub(const Poly &a, const Poly &b);
Poly schoolbook(const Poly &a, const Poly &b); // product in Z_q[X]/(X^256+1)
int zeta_brv(int i);                           // 17^(2*brv7(i)+1)
Bytes byte_encode(int d, const std::vector<uint16_t> &v);
std::vector<uint16_t> byte_decode(int d, const uint8_t *p, size_t n);   // no reduction
uint16_t compress(int d, unsigned x);          // round(2^d/q x) mod 2^d
uint16_t decompress(int d, unsigned y);
Poly cbd(int eta, const uint8_t *buf);
// rejection sampling from a byte stream given by callback(offset,len)->bytes
Poly sample_ntt_stream(const std::function<uint8_t(size_t)> &at, size_t *consumed = nullptr, size_t *rejected = nullptr);

struct Params { int k, eta1, eta2, du, dv; size_t pk, sk, ct; };
const Params &params(int k);

// Hash layer can be substituted (programmed XOF/PRF)
struct Hashes {
  std::function<Poly(const uint8_t *rho, int x, int y)> sample;            // default SHAKE128 rejection sampling, message rho||x||y
  std::function<Bytes(const uint8_t *key, int nonce, size_t len)> prf;     // default SHAKE256(key||nonce)
};
const Hashes &std_hashes();

struct Trace { int64_t max_rejects = 0; };
void cpa_keygen(int k, const uint8_t *d, uint8_t *pk, uint8_t *skcpa, const Hashes &h = std_hashes());
void cpa_enc(int k, const uint8_t *m, const uint8_t *pk, const uint8_t *r, uint8_t *ct, const Hashes &h = std_hashes());
void cpa_dec(int k, const uint8_t *ct, const uint8_t *skcpa, uint8_t *m);
void keypair(int k, const uint8_t *coins, uint8_t *pk, uint8_t *sk, const Hashes &h = std_hashes());
void enc(int k, const uint8_t *pk, const uint8_t *coins, uint8_t *ct, uint8_t *ss, const Hashes &h = std_hashes());
// returns true if the ciphertext was accepted
bool dec(int k, const uint8_t *ct, const uint8_t *sk, uint8_t *ss, const Hashes &h = std_hashes());

// ---- AES-256 / CTR-DRBG (SP 800-90A, no derivation function)
void aes256_ecb(const uint8_t key[32], const uint8_t in[16], uint8_t out[16]);
struct CtrDrbg {
  uint8_t key[32], v[16];
  void update(const uint8_t *prov);           // 48 bytes or null
  void init(const uint8_t *entropy, const uint8_t *pers);
  void generate(uint8_t *out, size_t n);
};
}

// Generators shared by the KEM-level checks.
#pragma once
#include "lib.hpp"
#include "model.hpp"
#include <algorithm>
#include <memory>

struct Libs {
  std::vector<KLib> v;
  std::vector<const KLib *> byk(int k) const { std::vector<const KLib *> r; for (auto &l : v) if (l.k == k) r.push_back(&l); return r; }
};
inline const KLib &pick_lib(Src &s, const std::vector<KLib> &v) { return v[s.draw(v.size() - 1)]; }

// coins: structured bytes; the structured modes produce the all-zero / all-one / near-constant seeds
inline Bytes gen_coins(Src &s, size_t n) { return s.bytes(n, 2); }

struct Key { Bytes pk, sk; };
inline Key lib_keypair(const KLib &l, const Bytes &coins) {
  Key k; k.pk.assign(l.pk, 0xEE); k.sk.assign(l.sk, 0xEE); l.keypair_derand(k.pk.data(), k.sk.data(), coins.data()); return k;
}
// 12-bit packing of a coefficient list (no canonicality imposed)
inline void put12(uint8_t *p, const std::vector<uint16_t> &c) { Bytes b = model::byte_encode(12, c); memcpy(p, b.data(), b.size()); }

// coefficient vectors with values in [0,lim)
inline std::vector<uint16_t> gen_coeffs(Src &s, unsigned lim) {
  std::vector<uint16_t> c(256, 0);
  switch (s.weighted({3, 12, 4, 4, 3, 3})) {
    case 0: break;
    case 1: { uint64_t sd = s.draw(UINT64_MAX); Rng r(sd); for (auto &x : c) x = sd ? r.next() % lim : 0; break; }
    case 2: { uint16_t v = s.draw(lim - 1); std::fill(c.begin(), c.end(), v); break; }
    case 3: { static const uint16_t ed[] = {0, 1, 2, 1663, 1664, 1665, 3327, 3328, 3329, 3330, 4094, 4095, 832, 833, 2496, 2497}; uint64_t sd = s.draw(UINT64_MAX); Rng r(sd);
              for (auto &x : c) { uint16_t e = ed[r.next() % 16]; x = e < lim ? e : lim - 1; } break; }
    case 4: { std::fill(c.begin(), c.end(), (uint16_t)(lim - 1)); break; }
    default: { unsigned k = 1 + s.draw(7); while (k--) c[s.draw(255)] = (uint16_t)s.draw(lim - 1); }
  }
  unsigned k = s.draw(2); while (k--) { size_t p = s.draw(255); c[p] = (uint16_t)s.draw(lim - 1); }
  return c;
}
// a public key: honest (from model-independent library key generation), canonical but arbitrary, or any 12-bit coefficients
inline Bytes gen_poly_bytes(Src &s, int k, unsigned lim) {
  Bytes b(384 * k);
  for (int i = 0; i < k; i++) put12(&b[384 * i], gen_coeffs(s, lim));
  return b;
}

// Ciphertext perturbations. Returns a description.
inline std::string tamper(Src &s, int k, Bytes &ct) {
  const model::Params &P = model::params(k);
  size_t ulen = 32 * P.du * k, vlen = 32 * P.dv, n = ct.size();
  auto flip_coeff_lsb = [&](size_t base, int d, size_t idx, int bit) { size_t p = idx * d + bit; ct[base + p / 8] ^= 1u << (p % 8); };
  switch (s.weighted({6, 6, 5, 5, 5, 5, 4, 4, 4, 4, 4, 3, 3})) {
    case 0: { size_t p = s.draw(8 * n - 1); ct[p / 8] ^= 1u << (p % 8); return strf("bit %zu", p); }
    case 1: { size_t p = s.draw(n - 1); uint8_t d = 1 + s.draw(254); ct[p] ^= d; return strf("byte %zu ^= %02x", p, d); }
    case 2: { // equal xor difference at two places (cancels in an xor fold)
      static const int D[] = {1, 2, 4, 8, 16, 32, 64, 128}; size_t w = D[s.draw(4)]; size_t p = s.draw(n - 1), q = s.draw(n - 1); uint8_t d = 1 + s.draw(254);
      if (p == q) q = (q + 1) % n;
      for (size_t i = 0; i < w && p + i < n && q + i < n; i++) { ct[p + i] ^= d; ct[q + i] ^= d; }
      return strf("bytes %zu,%zu (+%zu) ^= %02x", p, q, w, d); }
    case 3: { // low-bit flips in v whose byte differences sum to 0 mod 256
      unsigned a = s.draw(7); unsigned ones, sixteens; 
      if (P.dv == 4) { if (a & 1) { ones = 0; sixteens = 16 * (1 + (a >> 1)); } else { ones = 16; sixteens = 15 + 16 * (a >> 1); } 
        std::vector<size_t> pos(vlen); for (size_t i = 0; i < vlen; i++) pos[i] = i; uint64_t sd = s.draw(UINT64_MAX); Rng r(sd); for (size_t i = vlen; i-- > 1;) std::swap(pos[i], pos[r.next() % (i + 1)]);
        for (unsigned i = 0; i < ones; i++) ct[ulen + pos[i]] ^= 1;
        for (unsigned i = 0; i < sixteens && i < vlen; i++) ct[ulen + pos[(ones + i) % vlen]] ^= 16;
        return strf("v low-bit flips %u*0x01+%u*0x10", ones, sixteens); }
      else { unsigned c = 8 << s.draw(2); uint64_t sd = s.draw(UINT64_MAX); Rng r(sd); for (unsigned i = 0; i < c; i++) flip_coeff_lsb(ulen, P.dv, (r.next() % 32) * 8, 0); return strf("v low-bit flips in byte-aligned coefficients x%u", c); } }
    case 4: { // low-bit flips of u coefficients
      unsigned c = 1 + s.draw(255); uint64_t sd = s.draw(UINT64_MAX); Rng r(sd); for (unsigned i = 0; i < c; i++) flip_coeff_lsb(0, P.du, r.next() % (256 * k), r.next() % 2); return strf("%u u low-bit flips", c); }
    case 5: { // exactly m distinct u coefficients get their lowest bit flipped, m a power of two
      unsigned m = 2u << s.draw(6); size_t tot = 256 * k; size_t st = s.draw(tot - 1), step = 1 + 2 * s.draw(7); for (unsigned i = 0; i < m && i < tot; i++) flip_coeff_lsb(0, P.du, (st + i * step) % tot, 0); return strf("%u distinct u lowest bits from %zu step %zu", m, st, step); }
    case 6: { uint8_t d = 1u << s.draw(7); for (auto &x : ct) x ^= d; return strf("every byte ^= %02x", d); }
    case 7: { for (auto &x : ct) x = ~x; return "complemented"; }
    case 8: { size_t p = s.draw(n - 1), q = s.draw(n - 1); std::swap(ct[p], ct[q]); return strf("swapped bytes %zu,%zu", p, q); }
    case 9: { size_t cut = s.draw(n - 1), len = 1 + s.draw(n - cut - 1); Bytes r = s.bytes(len, 0); std::copy(r.begin(), r.end(), ct.begin() + cut); return strf("bytes %zu..%zu replaced", cut, cut + len); }
    case 10: { size_t r = 1 + s.draw(n - 2); std::rotate(ct.begin(), ct.begin() + r, ct.end()); return strf("rotated by %zu", r); }
    case 11: { Bytes r = s.bytes(n, 3); ct = r; return "replaced by generated bytes"; }
    default: { size_t d = 1 + s.draw(15); size_t p = s.draw(n - 1); for (size_t i = p; i < n; i += d) ct[i] ^= (uint8_t)(1u << (i % 8)); return strf("every %zu-th byte from %zu", d, p); }
  }
}

// Polynomial-level access to one library through its exposed internal functions.
#pragma once
#include "kemgen.hpp"
struct alignas(32) Po { int16_t c[256]; };
struct alignas(32) Pv { int16_t c[4][256]; };
struct PL {
  const KLib *l; std::vector<int> perm;   // perm[internal position] = position in the serialised (standard) order
  bool has(std::initializer_list<const char *> n) const { for (auto x : n) if (!l->find(x)) return false; return true; }
  void v1(const char *n, Po &p) const { l->fn<void (*)(Po *)>(n)(&p); }
  void v2(const char *n, Po &r, const Po &a, const Po &b) const { l->fn<void (*)(Po *, const Po *, const Po *)>(n)(&r, &a, &b); }
  void tob(const char *n, uint8_t *b, const Po &p) const { l->fn<void (*)(uint8_t *, const Po *)>(n)(b, &p); }
  void fromb(const char *n, Po &p, const uint8_t *b) const { l->fn<void (*)(Po *, const uint8_t *)>(n)(&p, b); }
  void w1(const char *n, Pv &p) const { l->fn<void (*)(Pv *)>(n)(&p); }
  bool init() { // derive the coefficient order of serialisation from the library itself
    if (!has({"poly_frombytes"})) return false; std::vector<uint16_t> v(256); for (int i = 0; i < 256; i++) v[i] = i; Bytes b = model::byte_encode(12, v); b.resize(b.size() + 64); Po p; fromb("poly_frombytes", p, b.data()); perm.assign(256, -1); std::vector<bool> seen(256, false);
    for (int i = 0; i < 256; i++) { int x = model::modq(p.c[i]); if (x >= 256 || seen[x]) { perm.clear(); return false; } seen[x] = true; perm[i] = x; }
    return true;
  }
  // NTT-domain value in standard order <-> internal
  void to_internal(Po &p, const std::vector<int> &std_order) const { for (int i = 0; i < 256; i++) p.c[i] = std_order[perm[i]]; }
  model::Poly to_std(const Po &p) const { model::Poly r(256); for (int i = 0; i < 256; i++) r[perm[i]] = model::modq(p.c[i]); return r; }
};
inline std::vector<PL> load_pl(const std::vector<KLib> &v) { std::vector<PL> r; for (auto &l : v) { PL p{&l, {}}; p.init(); r.push_back(p); } return r; }
inline model::Poly canon(const Po &p) { model::Poly r(256); for (int i = 0; i < 256; i++) r[i] = model::modq(p.c[i]); return r; }

// Generated calls of internal helpers: named buffers (some secret) and an action over them.
#pragma once
#include "kemgen.hpp"
#include "hashgen.hpp"
#include <array>
struct Buf { size_t n, align; bool secret; Bytes a, b; bool out; size_t cmp = SIZE_MAX; };
struct Case {
  std::string name; std::vector<Buf> b; std::vector<uint64_t> scal; int secret_scalar = -1; uint64_t scal2 = 0; bool keygen = false;
  size_t pub(const Bytes &x, size_t al = 1) { b.push_back({x.size(), al, false, x, x, false}); return b.size() - 1; }
  size_t sec(const Bytes &x, const Bytes &y, size_t al = 1) { b.push_back({x.size(), al, true, x, y, false}); return b.size() - 1; }
  size_t out(size_t n, size_t al = 1) { b.push_back({n, al, false, Bytes(n, 0), Bytes(n, 0), true}); return b.size() - 1; }
};
inline Bytes coeff_bytes(Src &s, int k, int lo, int hi) { Bytes b(512 * k); for (int j = 0; j < k; j++) { auto v = gen_coeffs(s, hi - lo + 1); for (int i = 0; i < 256; i++) { int16_t x = lo + v[i]; memcpy(&b[512 * j + 2 * i], &x, 2); } } return b; }
typedef void (*v2)(void *, const void *); typedef void (*v3)(void *, const void *, const void *); typedef void (*v4)(void *, const void *, const void *, const void *);
inline std::function<void(void *, uint8_t **)> gen_helper(Src &s, const KLib &l, Case &k, bool full, void *&f) {
  typedef std::function<void(void *, uint8_t **)> A;
    int kk = l.k; bool av = l.impl == "avx2"; size_t pc = kk == 4 ? 160 : 128, pvc = kk * (kk == 4 ? 352 : 320) ; struct D { const char *n; int kind; };
    static const D T[] = {{"poly_compress", 0}, {"poly_decompress", 1}, {"poly_tobytes", 2}, {"poly_frombytes", 3}, {"poly_frommsg", 4}, {"poly_tomsg", 5}, {"poly_ntt", 6}, {"poly_invntt_tomont", 6}, {"poly_basemul_montgomery", 8}, {"poly_tomont", 6}, {"poly_reduce", 7}, {"poly_add", 10}, {"poly_sub", 10}, {"polyvec_compress", 11}, {"polyvec_tobytes", 13}, {"polyvec_frombytes", 14}, {"polyvec_ntt", 15}, {"polyvec_invntt_tomont", 15}, {"polyvec_basemul_acc_montgomery", 17}, {"polyvec_reduce", 18}, {"polyvec_add", 19}, {"poly_getnoise_eta1", 20}, {"poly_getnoise_eta2", 20}, {"kyber_shake256_prf", 22}, {"kyber_shake256_rkprf", 23}, {"indcpa_enc", 25}, {"indcpa_dec", 26}, {"poly_nttunpack", 6}, {"poly_getnoise_eta1_4x", 29}, {"poly_getnoise_eta1122_4x", 29}, {"poly_cbd_eta1", 31}, {"poly_cbd_eta2", 32}, {"ntt", 6}, {"invntt", 6}, {"cmov_int16", 33}, {"montgomery_reduce", 34}, {"barrett_reduce", 35}, {"poly_compress", 0}, {"polyvec_compress", 11}, {"poly_tomsg", 5}, {"poly_frommsg", 4}};
    const D &d = T[s.draw(sizeof T / sizeof *T - 1)]; f = l.find(d.n); if (!f || (!full && (d.kind == 25 || d.kind == 26))) return nullptr; k.name = l.name() + "." + d.n; auto sc = [&](int n, int lo, int hi) { return k.sec(coeff_bytes(s, n, lo, hi), coeff_bytes(s, n, lo, hi), 32); }; auto sb = [&](size_t n, unsigned ov = 2) { return k.sec(s.bytes(n, ov), s.bytes(n, ov), 32); };
    size_t a, b, e; int lo = 0; uint8_t non = s.draw(255);
    switch (d.kind) {
      case 0: a = k.out(pc); b = sc(1, lo, 3328); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 1: a = k.out(512); b = sb(pc); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 2: a = k.out(384); b = sc(1, av ? 0 : -3328, 3328); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 3: a = k.out(512); b = sb(384); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 4: a = k.out(512); b = sb(32); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 5: a = k.out(32); b = sc(1, 0, 3328); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); });
      case 6: a = sc(1, -3328, 3328); return A([=](void *f, uint8_t **p) { ((void (*)(void *))f)(p[a]); }); case 7: a = sc(1, -32768, 32767); return A([=](void *f, uint8_t **p) { ((void (*)(void *))f)(p[a]); }); case 8: a = k.out(512); b = sc(1, -3328, 3328); e = sc(1, -3328, 3328); return A([=](void *f, uint8_t **p) { ((v3)f)(p[a], p[b], p[e]); }); case 10: a = k.out(512); b = sc(1, -16384, 16383); e = sc(1, -16384, 16383); return A([=](void *f, uint8_t **p) { ((v3)f)(p[a], p[b], p[e]); });
      case 11: a = k.out(pvc + 16); k.b[a].cmp = pvc; b = sc(kk, lo, 3328); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 13: a = k.out(384 * kk); b = sc(kk, 0, 3328); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 14: a = k.out(512 * kk); b = sb(384 * kk); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); case 15: a = sc(kk, -3328, 3328); return A([=](void *f, uint8_t **p) { ((void (*)(void *))f)(p[a]); }); case 17: a = k.out(512); b = sc(kk, -3328, 3328); e = sc(kk, -3328, 3328); return A([=](void *f, uint8_t **p) { ((v3)f)(p[a], p[b], p[e]); }); case 18: a = sc(kk, -32768, 32767); return A([=](void *f, uint8_t **p) { ((void (*)(void *))f)(p[a]); }); case 19: a = k.out(512 * kk); b = sc(kk, -16384, 16383); e = sc(kk, -16384, 16383); return A([=](void *f, uint8_t **p) { ((v3)f)(p[a], p[b], p[e]); });
      case 20: a = k.out(512); b = sb(32, 1); return A([=](void *f, uint8_t **p) { ((void (*)(void *, const void *, uint8_t))f)(p[a], p[b], non); }); case 22: { size_t n = s.draw(full ? 500 : 300); a = k.out(n); b = sb(32, 1); return A([=](void *f, uint8_t **p) { ((void (*)(void *, size_t, const void *, uint8_t))f)(p[a], n, p[b], non); }); } case 23: a = k.out(32); b = sb(32, 1); e = k.pub(s.bytes(l.ct, 1)); return A([=](void *f, uint8_t **p) { ((v3)f)(p[a], p[b], p[e]); });
      case 25: { Bytes pk = gen_poly_bytes(s, kk, 3329), r = s.prng(32); pk.insert(pk.end(), r.begin(), r.end()); a = k.out(l.ct); b = sb(32); size_t P = k.pub(pk); e = sb(32); return A([=](void *f, uint8_t **p) { ((v4)f)(p[a], p[b], p[P], p[e]); }); } case 26: { a = k.out(32); e = k.pub(s.bytes(l.ct, 2)); b = k.sec(gen_poly_bytes(s, kk, 4096), gen_poly_bytes(s, kk, 4096)); return A([=](void *f, uint8_t **p) { ((v3)f)(p[a], p[e], p[b]); }); }
      case 29: { size_t o[4]; for (auto &x : o) x = k.out(512, 32); b = sb(32, 1); std::array<size_t, 4> O{o[0], o[1], o[2], o[3]}; return A([=](void *f, uint8_t **p) { ((void (*)(void *, void *, void *, void *, void *, uint8_t, uint8_t, uint8_t, uint8_t))f)(p[O[0]], p[O[1]], p[O[2]], p[O[3]], p[b], non, non + 1, non + 2, non + 3); }); }
      case 31: case 32: { size_t n = (d.kind == 31 && kk == 2 ? 3 : 2) * 64 + 32; a = k.out(512); b = sb(n); return A([=](void *f, uint8_t **p) { ((v2)f)(p[a], p[b]); }); }
      case 33: { Bytes x(4, 0), y(4, 0); x[0] = s.draw(1); y[0] = 1 - x[0]; a = sb(2, 0); b = sb(2, 0); e = k.sec(x, y); return A([=](void *f, uint8_t **p) { ((void (*)(void *, int16_t, uint16_t))f)(p[a], *(int16_t *)p[b], *(uint16_t *)p[e]); }); }
      case 34: { auto g = [&] { int32_t v = (int32_t)s.srange(-(3329 << 15), (3329 << 15) - 1); return Bytes((uint8_t *)&v, (uint8_t *)&v + 4); }; a = k.sec(g(), g()); return A([=](void *f, uint8_t **p) { ((int16_t (*)(int32_t))f)(*(int32_t *)p[a]); }); } case 35: a = sb(2, 0); return A([=](void *f, uint8_t **p) { ((int16_t (*)(int16_t))f)(*(int16_t *)p[a]); });
    }
    return nullptr;
}

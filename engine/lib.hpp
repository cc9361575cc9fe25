// Access to the libraries built from /repo's working tree.
#pragma once
#include "engine.hpp"
#include <dlfcn.h>
#include <cstdlib>
#include <cstdio>
#include <stdint.h>

struct VfEntry { const char *name; void *p; };
struct KLib {
  std::string impl, variant; int k = 0; void *h = nullptr;
  size_t pk = 0, sk = 0, ct = 0;
  int (*keypair_derand)(uint8_t *, uint8_t *, const uint8_t *) = nullptr;
  int (*keypair)(uint8_t *, uint8_t *) = nullptr;
  int (*enc_derand)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *) = nullptr;
  int (*enc)(uint8_t *, uint8_t *, const uint8_t *) = nullptr;
  int (*dec)(uint8_t *, const uint8_t *, const uint8_t *) = nullptr;
  const VfEntry *table = nullptr;
  std::string name() const { return "kyber" + std::to_string(256 * k) + "_" + impl + (variant == "std" ? "" : "(" + variant + ")"); }
  void *find(const char *n) const { if (table) for (auto *e = table; e->name; e++) if (!strcmp(e->name, n)) return e->p; return nullptr; }
  template <class T> T fn(const char *n) const { return (T)find(n); }
};
inline KLib load_klib(const std::string &path, const std::string &impl, int k, const std::string &variant) {
  KLib l; l.impl = impl; l.k = k; l.variant = variant;
  l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!l.h) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); exit(2); }
  std::string p = "pqcrystals_kyber" + std::to_string(256 * k) + "_" + impl + "_";
  auto s = [&](const char *n) { void *x = dlsym(l.h, (p + n).c_str()); if (!x) { fprintf(stderr, "%s: no symbol %s%s\n", path.c_str(), p.c_str(), n); exit(2); } return x; };
  *(void **)&l.keypair_derand = s("keypair_derand"); *(void **)&l.keypair = s("keypair"); *(void **)&l.enc_derand = s("enc_derand");
  *(void **)&l.enc = s("enc"); *(void **)&l.dec = s("dec");
  l.table = (const VfEntry *)dlsym(l.h, "vf_table");
  l.pk = k == 2 ? 800 : k == 3 ? 1184 : 1568; l.sk = k == 2 ? 1632 : k == 3 ? 2400 : 3168; l.ct = k == 2 ? 768 : k == 3 ? 1088 : 1568;
  return l;
}
// VF_LIBS: "variant=dir;variant=dir". Loads <dir>/{ref,avx2}_{2,3,4}.so that exist.
inline std::vector<KLib> load_all(const std::string &only_variant = "", const std::string &only_impl = "") {
  std::vector<KLib> v; std::string s = envs("VF_LIBS", ""); size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find(';', p); if (e == std::string::npos) e = s.size(); std::string it = s.substr(p, e - p); p = e + 1;
    size_t q = it.find('='); if (q == std::string::npos) continue; std::string var = it.substr(0, q), dir = it.substr(q + 1);
    if (!only_variant.empty() && var != only_variant) continue;
    for (const char *impl : {"ref", "avx2"}) for (int k : {2, 3, 4}) {
      if (!only_impl.empty() && only_impl != impl) continue;
      std::string f = dir + "/" + impl + "_" + std::to_string(k) + ".so"; FILE *t = fopen(f.c_str(), "r"); if (!t) continue; fclose(t);
      v.push_back(load_klib(f, impl, k, var));
    }
  }
  return v;
}
// ---- entropy stub used by the randomized API entry points
struct RbHook { std::function<void(uint8_t *, size_t)> f; std::vector<size_t> calls; };
inline RbHook &rb_hook() { static RbHook h; return h; }
#define DEFINE_RANDOMBYTES \
  extern "C" __attribute__((visibility("default"))) void randombytes(uint8_t *out, size_t n) { RbHook &h = rb_hook(); h.calls.push_back(n); if (h.f) h.f(out, n); else memset(out, 0xA5, n); }

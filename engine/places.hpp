// Places for arguments (and the stack) that are far apart: below 4 GiB, across multiples of 2 GiB and 4 GiB, and spread over the address space.
#pragma once
#include "engine.hpp"
#include <sys/mman.h>
#include <ucontext.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
struct Region { uint8_t *base; const char *what; };
static const size_t REGION = 2u << 20;   // [0,1M): arguments, middle at 512K on the boundary; [1M,2M): stack
inline const std::vector<Region> &regions() {
  static std::vector<Region> v = [] {
    std::vector<Region> r; const size_t h = 1u << 19;
    void *p = mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p != MAP_FAILED) r.push_back({(uint8_t *)p, "anywhere"});
    static const struct { uint64_t a; const char *w; } A[] = {{0x40000000, "below 2^31"}, {0x80000000, "across 2^31"}, {0x100000000, "across 2^32"}, {0x180000000, "across 3*2^31"}, {0x200000000, "across 2^33"}, {0x10000000000, "across 2^40"}, {0x200080000000, "across 2^45+2^31"}, {0x600000000000, "across 3*2^45"}};
    for (auto &x : A) { void *want = (void *)(x.a - h); void *q = mmap(want, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (q == want) r.push_back({(uint8_t *)q, x.w}); else if (q != MAP_FAILED) munmap(q, REGION); }
    return r; }();
  return v;
}
// arguments of one case, each with 64 guard bytes on both sides
struct Placer {
  Src &s; size_t next[16] = {0}; struct B { uint8_t *p; size_t n; bool in; Bytes was; }; std::vector<B> all; std::string log; bool spread;
  explicit Placer(Src &s) : s(s) { spread = true; }
  uint8_t *get(size_t n) {
    auto &R = regions(); size_t r = s.draw(R.size() - 1), &nx = next[r], h = 1u << 19; size_t o = nx ? nx + s.draw(63) : h - (s.coin(1, 2) ? s.draw(n) : n / 2); if (o + n + 64 > REGION / 2) throw Discard{};
    nx = o + n + 64; uint8_t *p = R[r].base + o; memset(p - 64, 0xC7, 64); memset(p, 0xE3, n); memset(p + n, 0xC7, 64); all.push_back({p, n, false, {}}); log += std::string(log.empty() ? "" : ", ") + R[r].what; return p;
  }
  uint8_t *put(const Bytes &b) { uint8_t *p = get(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); all.back().in = true; all.back().was = b; return p; }
  // guards and inputs as they were
  void verify(Ctx &c, const std::string &w) { for (auto &b : all) { bool g = true; for (int i = 1; i <= 64; i++) g &= b.p[-i] == 0xC7 && b.p[b.n + i - 1] == 0xC7; c.check(g, w + ": wrote outside an argument (" + log + ")"); if (b.in) c.check(!b.n || !memcmp(b.p, b.was.data(), b.n), w + ": changed an input (" + log + ")"); } }
};
// run f on a stack in the given region
struct OnStack { std::function<void()> f; ucontext_t a, b; };
inline OnStack *&onstack_cur() { static OnStack *p; return p; }
inline void onstack_entry() { onstack_cur()->f(); }
inline void on_stack(size_t region, std::function<void()> f) {
  static OnStack O; O.f = std::move(f); onstack_cur() = &O; getcontext(&O.b); O.b.uc_stack.ss_sp = regions()[region].base + REGION / 2; O.b.uc_stack.ss_size = REGION / 2; O.b.uc_link = &O.a; makecontext(&O.b, onstack_entry, 0); swapcontext(&O.a, &O.b);
}

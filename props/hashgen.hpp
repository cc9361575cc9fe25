// Lengths that matter for a sponge of the given rate.
#pragma once
#include "kemgen.hpp"
inline size_t gen_len(Src &s, size_t rate, size_t big = 2048) {
  switch (s.weighted({4, 6, 6, 4, 4, 1})) {
    case 0: return s.draw(20);
    case 1: return s.draw(2 * rate + 20);
    case 2: { size_t m = rate * (1 + s.draw(4)); int64_t d = s.srange(-9, 9); return m + d; }
    case 3: return s.draw(big);
    case 4: return 8 * s.draw(big / 8) + s.draw(1) * 4;
    default: return s.draw(8 * big);
  }
}
// room for a result with canaries on both sides, at a drawn misalignment
struct Out {
  Bytes b; size_t off, n;
  Out(size_t off, size_t n, uint8_t fill = 0xC7) : b(off + n + 64, fill), off(off), n(n) {}
  uint8_t *p() { return b.data() + off; }
  Bytes get() const { return Bytes(b.begin() + off, b.begin() + off + n); }
  bool intact(uint8_t fill = 0xC7) const { for (size_t i = 0; i < b.size(); i++) if ((i < off || i >= off + n) && b[i] != fill) return false; return true; }
};
// contiguous virtual range of n bytes that repeats one 2 MiB memory object
#include <sys/mman.h>
#include <unistd.h>
struct Tiled {
  uint8_t *p = nullptr; size_t n = 0, unit = 2u << 20;
  Tiled(size_t bytes) {
    n = (bytes + unit - 1) / unit * unit; int fd = memfd_create("vf", 0); if (fd < 0 || ftruncate(fd, unit)) return;
    uint8_t *r = (uint8_t *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) { close(fd); return; }
    for (size_t o = 0; o < n; o += unit) if (mmap(r + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(r, n); close(fd); return; }
    close(fd); p = r;
  }
  ~Tiled() { if (p) munmap(p, n); }
};

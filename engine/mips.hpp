// A big-endian MIPS32r2 (soft float) with exact memory permissions and alignment traps; runs functions of a statically linked image.
#pragma once
#include "engine.hpp"
#include <cstdio>
struct Mips {
  static const uint32_t SIZE = 1u << 20, STACK_LO = 0x80000, STACK_HI = 0xC0000, ARENA = 0xC0000, MAGIC = 0xFFFFFFF0u;
  Bytes mem, image; std::vector<uint8_t> perm; std::map<std::string, uint32_t> sym; uint32_t r[32], hi = 0, lo = 0; uint64_t steps = 0; std::string err;
  uint32_t g32(uint32_t a) const { uint32_t v; memcpy(&v, &mem[a], 4); return __builtin_bswap32(v); }
  uint16_t g16(uint32_t a) const { uint16_t v; memcpy(&v, &mem[a], 2); return __builtin_bswap16(v); }
  void p32(uint32_t a, uint32_t v) { v = __builtin_bswap32(v); memcpy(&mem[a], &v, 4); }
  static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
  static uint16_t be16(const uint8_t *p) { return p[0] << 8 | p[1]; }
  bool load(const std::string &path) {
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return false; Bytes b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f);
    if (b.size() < 52 || memcmp(b.data(), "\177ELF\1\2", 6)) return false; mem.assign(SIZE, 0); perm.assign(SIZE >> 4, 0);
    uint32_t ph = be32(&b[28]), sh = be32(&b[32]); uint16_t pn = be16(&b[44]), sn = be16(&b[48]);
    for (int i = 0; i < pn; i++) { const uint8_t *p = &b[ph + 32 * i]; if (be32(p) != 1) continue; uint32_t off = be32(p + 4), va = be32(p + 8), fs = be32(p + 16), ms = be32(p + 20), fl = be32(p + 24); if (va + ms > STACK_LO) return false; memcpy(&mem[va], &b[off], fs); for (uint32_t a = va >> 4; a <= (va + ms - 1) >> 4; a++) perm[a] |= fl; }
    for (uint32_t a = STACK_LO >> 4; a < SIZE >> 4; a++) perm[a] = 6;
    for (int i = 0; i < sn; i++) { const uint8_t *s = &b[sh + 40 * i]; if (be32(s + 4) != 2) continue; const uint8_t *st = &b[sh + 40 * be32(s + 24)]; const char *names = (const char *)&b[be32(st + 16)]; for (uint32_t o = 0; o < be32(s + 20); o += 16) { const uint8_t *y = &b[be32(s + 16) + o]; if (be16(y + 14)) sym[names + be32(y)] = be32(y + 4); } }
    image.assign(mem.begin(), mem.begin() + STACK_LO); return true;
  }
  void reset() { memcpy(mem.data(), image.data(), STACK_LO); }
  bool ok(uint32_t a, uint32_t n, int w) { if ((a & (n - 1))) { err = strf("misaligned %u-byte access at %#x", n, a); return false; } if (a >= SIZE || !(perm[a >> 4] & w)) { err = strf("access outside the program's memory at %#x", a); return false; } return true; }
  // runs a function; false on a fault (err)
  bool call(uint32_t fn, const std::vector<uint32_t> &args, uint32_t &ret, uint32_t spoff = 0, uint64_t maxsteps = 400000000) {
    uint32_t sp = STACK_HI - 256 - (spoff & ~7u); for (int i = 1; i < 32; i++) r[i] = 0xABCD0000u + i * 7919; r[0] = 0; r[29] = sp; r[31] = MAGIC; for (size_t i = 0; i < args.size(); i++) { if (i < 4) r[4 + i] = args[i]; else p32(sp + 4 * i, args[i]); }
    uint32_t s[9]; for (int i = 0; i < 8; i++) s[i] = r[16 + i]; uint32_t pc = fn, npc = fn + 4; uint64_t n = 0; err.clear();
    while (pc != MAGIC) {
      if (n++ > maxsteps) { err = "does not return"; return false; }
      if ((pc & 3) || pc >= STACK_LO || !(perm[pc >> 4] & 1)) { err = strf("jump to %#x", pc); return false; }
      uint32_t i = g32(pc); uint32_t here = pc; pc = npc; npc += 4; unsigned op = i >> 26, rs = i >> 21 & 31, rt = i >> 16 & 31, rd = i >> 11 & 31, sa = i >> 6 & 31; int32_t im = (int16_t)i; uint32_t ui = i & 0xffff; uint32_t A = r[rs], B = r[rt];
      #define BR(c) do { if (c) npc = here + 4 + ((uint32_t)im << 2); } while (0)
      #define ILL do { err = strf("unknown instruction %08x at %#x", i, here); return false; } while (0)
      switch (op) {
        case 0: switch (i & 63) {
          case 0x00: r[rd] = B << sa; break; case 0x02: r[rd] = (rs & 1) ? (sa ? B >> sa | B << (32 - sa) : B) : B >> sa; break; case 0x03: r[rd] = (int32_t)B >> sa; break;
          case 0x04: r[rd] = B << (A & 31); break; case 0x06: { unsigned k = A & 31; r[rd] = (sa & 1) ? (k ? B >> k | B << (32 - k) : B) : B >> k; break; } case 0x07: r[rd] = (int32_t)B >> (A & 31); break;
          case 0x08: npc = A; break; case 0x09: npc = A; r[rd] = here + 8; break; case 0x0a: if (!B) r[rd] = A; break; case 0x0b: if (B) r[rd] = A; break; case 0x0d: err = strf("abort or break at %#x", here); return false; case 0x0f: break;
          case 0x10: r[rd] = hi; break; case 0x11: hi = A; break; case 0x12: r[rd] = lo; break; case 0x13: lo = A; break;
          case 0x18: { int64_t v = (int64_t)(int32_t)A * (int32_t)B; lo = v; hi = v >> 32; break; } case 0x19: { uint64_t v = (uint64_t)A * B; lo = v; hi = v >> 32; break; }
          case 0x1a: if (B) { if (A == 0x80000000u && B == 0xffffffffu) { lo = A; hi = 0; } else { lo = (int32_t)A / (int32_t)B; hi = (int32_t)A % (int32_t)B; } } break; case 0x1b: if (B) { lo = A / B; hi = A % B; } break;
          case 0x20: case 0x21: r[rd] = A + B; break; case 0x22: case 0x23: r[rd] = A - B; break; case 0x24: r[rd] = A & B; break; case 0x25: r[rd] = A | B; break; case 0x26: r[rd] = A ^ B; break; case 0x27: r[rd] = ~(A | B); break; case 0x2a: r[rd] = (int32_t)A < (int32_t)B; break; case 0x2b: r[rd] = A < B; break;
          case 0x34: if (A == B) { err = strf("trap at %#x", here); return false; } break; case 0x36: if (A != B) { err = strf("trap at %#x", here); return false; } break; default: ILL; } break;
        case 1: switch (rt) { case 0: BR((int32_t)A < 0); break; case 1: BR((int32_t)A >= 0); break; case 0x10: r[31] = here + 8; BR((int32_t)A < 0); break; case 0x11: r[31] = here + 8; BR((int32_t)A >= 0); break; default: ILL; } break;
        case 2: npc = (here & 0xf0000000u) | (i & 0x3ffffff) << 2; break; case 3: r[31] = here + 8; npc = (here & 0xf0000000u) | (i & 0x3ffffff) << 2; break;
        case 4: BR(A == B); break; case 5: BR(A != B); break; case 6: BR((int32_t)A <= 0); break; case 7: BR((int32_t)A > 0); break;
        case 8: case 9: r[rt] = A + im; break; case 10: r[rt] = (int32_t)A < im; break; case 11: r[rt] = A < (uint32_t)im; break; case 12: r[rt] = A & ui; break; case 13: r[rt] = A | ui; break; case 14: r[rt] = A ^ ui; break; case 15: r[rt] = ui << 16; break;
        case 0x1c: switch (i & 63) { case 0: case 1: case 4: case 5: { uint64_t acc = (uint64_t)hi << 32 | lo, v = (i & 1) ? (uint64_t)A * B : (uint64_t)((int64_t)(int32_t)A * (int32_t)B); acc = (i & 4) ? acc - v : acc + v; lo = acc; hi = acc >> 32; break; } case 2: r[rd] = A * B; break; case 0x20: r[rd] = A ? __builtin_clz(A) : 32; break; case 0x21: r[rd] = ~A ? __builtin_clz(~A) : 32; break; default: ILL; } break;
        case 0x1f: switch (i & 63) { case 0: { unsigned sz = rd + 1; r[rt] = (A >> sa) & (sz == 32 ? 0xffffffffu : (1u << sz) - 1); break; } case 4: { unsigned sz = rd - sa + 1; uint32_t m = (sz == 32 ? 0xffffffffu : (1u << sz) - 1) << sa; r[rt] = (B & ~m) | ((A << sa) & m); break; } case 0x20: if (sa == 2) r[rd] = (B & 0xff00ff) << 8 | (B >> 8 & 0xff00ff); else if (sa == 0x10) r[rd] = (int8_t)B; else if (sa == 0x18) r[rd] = (int16_t)B; else ILL; break; default: ILL; } break;
        case 0x20: { uint32_t a = A + im; if (!ok(a, 1, 4)) return false; r[rt] = (int8_t)mem[a]; break; } case 0x24: { uint32_t a = A + im; if (!ok(a, 1, 4)) return false; r[rt] = mem[a]; break; }
        case 0x21: { uint32_t a = A + im; if (!ok(a, 2, 4)) return false; r[rt] = (int16_t)g16(a); break; } case 0x25: { uint32_t a = A + im; if (!ok(a, 2, 4)) return false; r[rt] = g16(a); break; }
        case 0x23: { uint32_t a = A + im; if (!ok(a, 4, 4)) return false; r[rt] = g32(a); break; }
        case 0x22: { uint32_t a = A + im; if (!ok(a, 1, 4)) return false; for (unsigned k = a & 3, s = 24; k < 4; k++, s -= 8) r[rt] = (r[rt] & ~(0xffu << s)) | (uint32_t)mem[(a & ~3u) + k] << s; break; }
        case 0x26: { uint32_t a = A + im; if (!ok(a, 1, 4)) return false; unsigned s = 0; for (int k = a & 3; k >= 0; k--, s += 8) r[rt] = (r[rt] & ~(0xffu << s)) | (uint32_t)mem[(a & ~3u) + k] << s; break; }
        case 0x28: { uint32_t a = A + im; if (!ok(a, 1, 2)) return false; mem[a] = B; break; } case 0x29: { uint32_t a = A + im; if (!ok(a, 2, 2)) return false; mem[a] = B >> 8; mem[a + 1] = B; break; } case 0x2b: { uint32_t a = A + im; if (!ok(a, 4, 2)) return false; p32(a, B); break; }
        case 0x2a: { uint32_t a = A + im; if (!ok(a, 1, 2)) return false; for (unsigned k = a & 3, s = 24; k < 4; k++, s -= 8) mem[(a & ~3u) + k] = B >> s; break; }
        case 0x2e: { uint32_t a = A + im; if (!ok(a, 1, 2)) return false; unsigned s = 0; for (int k = a & 3; k >= 0; k--, s += 8) mem[(a & ~3u) + k] = B >> s; break; }
        case 0x33: break; default: ILL;
      }
      r[0] = 0;
      #undef BR
      #undef ILL
    }
    steps += n; ret = r[2]; if (r[29] != sp) { err = "stack pointer not restored"; return false; } for (int k = 0; k < 8; k++) if (s[k] != r[16 + k]) { err = "callee-saved register not restored"; return false; } return true;
  }
};

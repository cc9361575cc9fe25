/* what a hosted C environment would provide, and the entropy source */
#include <stddef.h>
#include <stdint.h>
void *memcpy(void *d, const void *s, size_t n) { volatile unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n) { volatile unsigned char *a = d; const unsigned char *b = s; if ((uintptr_t)a <= (uintptr_t)b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, size_t n) { volatile unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = x; for (; n--; a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
int abs(int x) { return x < 0 ? -x : x; }
void abort(void) { __builtin_trap(); }
uint8_t vf_entropy[256]; uint32_t vf_entropy_used;
void randombytes(uint8_t *o, size_t n) { while (n--) *o++ = vf_entropy[vf_entropy_used++ & 255]; }
/* 64-bit division for 32-bit targets */
static uint64_t dm(uint64_t a, uint64_t b, uint64_t *r) { uint64_t q = 0, m = 0; int i; for (i = 63; i >= 0; i--) { uint64_t top = m >> 63; m = m << 1 | ((a >> i) & 1); if (top || m >= b) { m -= b; q |= (uint64_t)1 << i; } } *r = m; return q; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return dm(a, b, &r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; dm(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t r, q = dm(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b, &r); return (a < 0) != (b < 0) ? -q : q; }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; dm(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b, &r); return a < 0 ? -r : r; }
#ifdef __i386__
/* server: fd 3 is the shared memory, fd 4 commands, fd 5 answers. */
static long sc(long n, long a, long b, long c, long d, long e, long f) { long r; (void)d; (void)e; (void)f; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
__attribute__((naked)) static uint32_t call_dirty(const uint32_t *c) { /* c[0]=function, c[1..6]=arguments; the stack below holds c[7] as garbage */
  __asm__("pushl %ebp\n movl %esp, %ebp\n pushl %ebx\n pushl %esi\n pushl %edi\n movl 8(%ebp), %esi\n movl 28(%esi), %eax\n leal -65536(%esp), %edi\n movl $16000, %ecx\n cld\n rep stosl\n andl $-16, %esp\n subl $8, %esp\n pushl 24(%esi)\n pushl 20(%esi)\n pushl 16(%esi)\n pushl 12(%esi)\n pushl 8(%esi)\n pushl 4(%esi)\n call *(%esi)\n leal -12(%ebp), %esp\n popl %edi\n popl %esi\n popl %ebx\n popl %ebp\n ret"); }
struct call { uint32_t f, a[6], dirt, ret; };
void vf_main(void) { uint32_t args[6] = {0x50000000u, 1u << 20, 3, 0x11, 3, 0}; long r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(90), "b"(args) : "memory"); if ((unsigned long)r != 0x50000000u) sc(1, 9, 0, 0, 0, 0, 0);
  for (;;) { char ch; if (sc(3, 4, (long)&ch, 1, 0, 0, 0) != 1) sc(1, 0, 0, 0, 0, 0, 0); volatile struct call *c = (volatile struct call *)0x50000000u; c->ret = call_dirty((const uint32_t *)c); sc(4, 5, (long)&ch, 1, 0, 0, 0); } }
__attribute__((naked)) void _start(void) { __asm__("andl $-16, %esp\n call vf_main"); }
#else
void _start(void) {}
#endif

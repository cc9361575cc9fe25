// Scripted operating system beneath the entropy source. The including file defines `static void cb()` (a point of interruption) before, and `static void leave()`
// (what a terminating process does) after.
#pragma once
#include "engine.hpp"
#include <cerrno>
#include <cstdarg>
#include <sys/syscall.h>
#include <sys/types.h>
#define VIS extern "C" __attribute__((visibility("default")))
struct OS { std::vector<int> open_ev; std::vector<int> read_ev; size_t io = 0, ir = 0; struct { bool o[256]; size_t count(int f) const { return f >= 0 && f < 256 && o[f]; } void insert(int f) { if (f >= 0 && f < 256) o[f] = true; } void erase(int f) { if (f >= 0 && f < 256) o[f] = false; } } fds = {}; int nextfd = 10; uint64_t stream = 1, off = 0; std::string bad; } *os;
struct TLog { uint8_t *out = nullptr; size_t n = 0, got = 0; Bytes sent; }; static thread_local TLog *tl; static thread_local bool gone;
static void os_bad(const std::string &m) { if (os->bad.empty()) os->bad = m; }
static long deliver(void *b, size_t n) { cb(); int e = os->ir < os->read_ev.size() ? os->read_ev[os->ir++] : 0; if (e < 0) { errno = EINTR; return -1; } if (e > 0 && (size_t)e < n) n = e; for (size_t i = 0; i < n; i++) { uint8_t x = mix64(os->stream + os->off++); ((uint8_t *)b)[i] = x; tl->sent.push_back(x); } cb(); return n; }
VIS long vf_syscall(long no, ...) { va_list a; va_start(a, no); void *b = va_arg(a, void *); size_t n = va_arg(a, size_t); va_end(a); if (no != SYS_getrandom) { errno = ENOSYS; return -1; } return deliver(b, n); }
VIS ssize_t vf_getrandom(void *b, size_t n, unsigned) { return deliver(b, n); }
VIS int vf_getentropy(void *b, size_t n) { while (n) { long r = deliver(b, n); if (r > 0) { b = (char *)b + r; n -= r; } } return 0; }
static int do_open() { cb(); int e = os->io < os->open_ev.size() ? os->open_ev[os->io++] : 0; if (e < 0) { cb(); errno = EINTR; return -1; } int fd = os->nextfd++; os->fds.insert(fd); cb(); return fd; }
VIS int vf_open(const char *, int, ...) { return do_open(); } VIS int vf_open64(const char *, int, ...) { return do_open(); } VIS int vf_openat(int, const char *, int, ...) { return do_open(); }
VIS ssize_t vf_read(int fd, void *b, size_t n) { if (!os->fds.count(fd)) { cb(); errno = EBADF; return -1; } return deliver(b, n); } VIS ssize_t vf___read_chk(int fd, void *b, size_t n, size_t) { return vf_read(fd, b, n); }
VIS int vf_close(int fd) { os->fds.erase(fd); return 0; } VIS int vf_sched_yield() { cb(); return 0; } VIS int vf_usleep(unsigned) { cb(); return 0; } VIS int vf_nanosleep(const void *, void *) { cb(); return 0; } VIS unsigned vf_sleep(unsigned) { cb(); return 0; } VIS int vf_poll(void *, unsigned long, int) { cb(); return 1; }
static void leave();
VIS void vf_abort() { os_bad("terminates although no OS call failed permanently"); leave(); } VIS void vf_exit(int) { vf_abort(); } VIS void vf__exit(int) { vf_abort(); } VIS void vf__Exit(int) { vf_abort(); } VIS void vf___assert_fail(const char *, const char *, unsigned, const char *) { vf_abort(); } VIS int vf_raise(int) { vf_abort(); return 0; }

#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>

// ------------------------------------------------------------------ helpers
std::string strf(const char *fmt, ...) {
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
}
std::string hex(const uint8_t *p, size_t n, size_t maxn) {
  static const char *d = "0123456789abcdef"; std::string s; size_t m = std::min(n, maxn);
  for (size_t i = 0; i < m; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  if (m < n) s += strf("..(%zu bytes)", n);
  return s;
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = mix64(h ^ w); b += 8; n -= 8; }
  uint64_t w = n; for (size_t i = 0; i < n; i++) w = w << 8 | b[i];
  return mix64(h ^ w ^ 0x1234567);
}
const char *envs(const char *name, const char *dflt) { const char *v = getenv(name); return v && *v ? v : dflt; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ Src
uint64_t Src::draw(uint64_t max) {
  uint64_t v = 0;
  if (mode == RANDOM) {
    if (max == 0) v = 0;
    else if (max == UINT64_MAX) v = rng.next();
    else { // rejection-free enough: 64-bit multiply-high
      v = (uint64_t)(((unsigned __int128)rng.next() * ((unsigned __int128)max + 1)) >> 64);
    }
  } else if (mode == REPLAY) {
    uint64_t c = pos < ch.size() ? ch[pos] : 0; pos++;
    v = c > max ? (max == UINT64_MAX ? c : c % (max + 1)) : c;
    used.push_back(v);
    return v;
  } else {
    unsigned nb = 0; for (uint64_t m = max; m; m >>= 8) nb++;
    for (unsigned i = 0; i < nb; i++) { uint64_t b = fzlen ? *fz : 0; if (fzlen) { fz++; fzlen--; } v |= b << (8 * i); }
    if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
  }
  ch.push_back(v); pos++;
  if (shm && ch.size() <= shmcap) { shm[1 + ch.size() - 1] = v; __atomic_store_n(shm, ch.size(), __ATOMIC_RELEASE); }
  return v;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
  uint64_t tot = 0; for (auto x : w) tot += x;
  uint64_t r = draw(tot - 1); size_t i = 0;
  for (auto x : w) { if (r < x) return i; r -= x; i++; }
  return w.size() - 1;
}
Bytes Src::prng(size_t n) {
  uint64_t s = draw(UINT64_MAX); Bytes b(n, 0); if (!s) return b;
  Rng r(s); size_t i = 0;
  while (i < n) { uint64_t v = r.next(); for (int k = 0; k < 8 && i < n; k++, v >>= 8) b[i++] = (uint8_t)v; }
  return b;
}
Bytes Src::bytes(size_t n, unsigned overlays) {
  Bytes b(n, 0); if (!n) return b;
  switch (weighted({4, 40, 6, 6, 3, 6, 4, 3, 28})) {
    case 0: break;
    case 1: b = prng(n); break;
    case 2: std::fill(b.begin(), b.end(), 0xff); break;
    case 3: { uint8_t c = (uint8_t)draw(255); std::fill(b.begin(), b.end(), c); break; }
    case 4: { uint8_t c = (uint8_t)draw(255), st = (uint8_t)draw(255); for (auto &x : b) { x = c; c += st; } break; }
    case 5: { unsigned k = 1 + draw(7); bool inv = draw(1); if (inv) std::fill(b.begin(), b.end(), 0xff);
              while (k--) { uint64_t bit = draw(8 * n - 1); b[bit / 8] ^= 1u << (bit % 8); } break; }
    case 6: { size_t p = 1 + draw(std::min<size_t>(n, 48) - 1); Bytes t = prng(p); for (size_t i = 0; i < n; i++) b[i] = t[i % p]; break; }
    case 7: { uint8_t c = (uint8_t)draw(255), d = (uint8_t)draw(255); size_t cut = draw(n); for (size_t i = 0; i < n; i++) b[i] = i < cut ? c : d; break; }
    default:
      if (n <= 128) { for (size_t i = 0; i < n; i += 8) { uint64_t w = draw(UINT64_MAX); for (size_t k = i; k < n && k < i + 8; k++, w >>= 8) b[k] = (uint8_t)w; } }
      else b = prng(n);
  }
  if (overlays) { unsigned k = (unsigned)draw(overlays); while (k--) {
    switch (weighted({6, 4, 2, 1})) {
      case 0: { size_t p = draw(n - 1); b[p] = (uint8_t)draw(255); break; }
      case 1: { // a run of one value, at the start, the end, a word boundary or anywhere
        static const uint8_t V[] = {0, 255, 128, 127, 1, 254}; static const size_t L[] = {1, 2, 3, 4, 8, 16, 32, 64}; size_t l = draw(3) ? L[draw(7)] : 1 + draw(n - 1); if (l > n) l = n; size_t p = 0;
        switch (weighted({3, 3, 3, 1})) { case 0: break; case 1: p = n - l; break; case 2: p = draw((n - l) / 8) * 8; break; default: p = draw(n - l); } memset(&b[p], V[draw(5)], l); break; }
      case 2: { // one part equals another part
        size_t l = n / 2 >= 32 && draw(1) ? (draw(1) ? n / 2 : 32) : 1 + draw(n / 2 ? n / 2 - 1 : 0); if (2 * l > n) break; size_t p = draw(1) ? 0 : draw(n - l), q = draw(1) ? n - l : draw(n - l); Bytes t(b.begin() + p, b.begin() + p + l); std::copy(t.begin(), t.end(), b.begin() + q); break; }
      default: { std::reverse(b.begin(), b.end()); break; }
    } } }
  return b;
}

void Ctx::eq(const void *a, const void *b, size_t n, const std::string &what) {
  if (n == 0 || !memcmp(a, b, n)) return;
  const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b; size_t i = 0; while (x[i] == y[i]) i++;
  size_t cnt = 0; for (size_t k = 0; k < n; k++) cnt += x[k] != y[k];
  throw Failure{strf("%s: %zu of %zu bytes differ, first at offset %zu: got %s want %s", what.c_str(), cnt, n, i,
                     hex(x + i, n - i, 12).c_str(), hex(y + i, n - i, 12).c_str())};
}
void Ctx::eq(const Bytes &a, const Bytes &b, const std::string &what) {
  if (a.size() != b.size()) throw Failure{strf("%s: length %zu vs %zu", what.c_str(), a.size(), b.size())};
  eq(a.data(), b.data(), a.size(), what);
}

// ------------------------------------------------------------------ runner
namespace {
const size_t SHMCAP = 1 << 15;
struct ShmHdr { volatile uint64_t unit, icase, running; uint64_t ch[1 + SHMCAP]; };

struct Found { bool any = false; std::string unit, msg, kind; uint64_t icase = 0; std::vector<uint64_t> ch; int worker = 0; };

Check g_check;
std::string g_tmp;
int g_jobs = 8; uint64_t g_seed = 1; int g_tier = 0; double g_scale = 1, g_budget = 600; std::string g_only;
int g_cpu_limit = 20;
int CPU(const Unit &u) { return u.cpu ? u.cpu : g_cpu_limit; }

void arm(int secs) { struct itimerval it = {{0, 0}, {secs, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

uint64_t unit_count(const Unit &u) {
  uint64_t n = g_tier ? u.thorough : u.quick;
  if (u.enumerate) return n;
  double d = n * g_scale; return d < 1 ? 1 : (uint64_t)d;
}
uint64_t case_seed(size_t ui, uint64_t i) { return mix64(mix64(g_seed * 1000003 + hash_bytes(g_check.units[ui].name.data(), g_check.units[ui].name.size())) + i); }

// Run body once; returns "" if ok, else failure message. Discards -> ok (flag).
std::string run_body(const Unit &u, Src &s, Ctx &c, bool *disc) {
  if (disc) *disc = false;
  c.case_nt = false;
  try { u.body(s, c); }
  catch (Failure &f) { return f.msg.empty() ? std::string("failure") : f.msg; }
  catch (Discard &) { if (disc) *disc = true; }
  return "";
}

std::string sig_kind(int sig) {
  if (sig == SIGVTALRM) return strf("case did not finish within its CPU time limit");
  return strf("crashed with signal %d (%s)", sig, strsignal(sig));
}

// Run one case (given choices) in a forked child. Returns kind: "" ok, else message. usedout: consumed choices
std::string run_forked(const Unit &u, const std::vector<uint64_t> &ch, std::vector<uint64_t> *usedout, ShmHdr *shm, int cpu) {
  (void)shm;
  int p[2]; if (pipe(p)) return "";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
    arm(cpu);
    Src s; s.mode = Src::REPLAY; s.ch = ch; Ctx c; c.unit = u.name; c.tier = g_tier;
    std::string m = run_body(u, s, c, nullptr);
    uint64_t n = s.used.size(), l = m.size();
    auto wr = [&](const void *q, size_t k) { const char *b = (const char *)q; while (k) { ssize_t r = write(p[1], b, k); if (r <= 0) _exit(3); b += r; k -= r; } };
    wr(&n, 8); wr(s.used.data(), n * 8); wr(&l, 8); wr(m.data(), l);
    _exit(0);
  }
  close(p[1]);
  std::string buf; char tmp[65536]; ssize_t r;
  while ((r = read(p[0], tmp, sizeof tmp)) > 0 || (r < 0 && errno == EINTR)) if (r > 0) buf.append(tmp, r);
  close(p[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { if (usedout) *usedout = ch; return sig_kind(WTERMSIG(st)); }
  if (buf.size() < 16) { if (usedout) *usedout = ch; return strf("case process ended abnormally (exit status %d)", WEXITSTATUS(st)); }
  uint64_t n, l; memcpy(&n, buf.data(), 8); 
  if (usedout) { usedout->resize(n); memcpy(usedout->data(), buf.data() + 8, n * 8); }
  memcpy(&l, buf.data() + 8 + n * 8, 8);
  return buf.substr(16 + n * 8, l);
}

void put(FILE *f, const std::string &s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
void put(FILE *f, uint64_t v) { fwrite(&v, 8, 1, f); }
bool get(FILE *f, uint64_t &v) { return fread(&v, 8, 1, f) == 1; }
bool get(FILE *f, std::string &s) { uint64_t n; if (!get(f, n) || n > (1ull << 28)) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }

struct UnitStats { uint64_t evals = 0, nontriv = 0, discards = 0, planned = 0; bool truncated = false; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> distinct; double secs = 0; };

std::string choices_text(const std::vector<uint64_t> &ch, size_t maxn = 24) {
  std::string s = "["; for (size_t i = 0; i < ch.size() && i < maxn; i++) s += strf("%s%llu", i ? "," : "", (unsigned long long)ch[i]);
  if (ch.size() > maxn) s += strf(",..(%zu)", ch.size());
  return s + "]";
}

// worker body; returns Found via file
void worker(int w, ShmHdr *shm, double deadline, int upto_unit = -1, uint64_t upto_case = 0, int only_unit = -1) {
  std::string path = g_tmp + strf("/w%d", w);
  FILE *f = fopen(path.c_str(), "wb"); if (!f) _exit(4);
  for (size_t ui = 0; ui < g_check.units.size(); ui++) {
    Unit &u = g_check.units[ui];
    if (!g_only.empty() && u.name != g_only) continue;
    if (only_unit >= 0 && (int)ui != only_unit) continue;
    uint64_t N = unit_count(u);
    Ctx c; c.unit = u.name; c.tier = g_tier;
    uint64_t evals = 0; bool trunc = false; Found fd; double t0 = now(); int nsamp = 0;
    for (uint64_t i = w; i < N; i += g_jobs) {
      if ((evals & 15) == 0 && now() > deadline) { trunc = true; break; }
      if (upto_unit >= 0 && ((int)ui > upto_unit || ((int)ui == upto_unit && i > upto_case))) break;
      Src s; s.rng = Rng(case_seed(ui, i)); s.shm = shm->ch; s.shmcap = SHMCAP; shm->ch[0] = 0;
      if (u.enumerate) { s.mode = Src::REPLAY; s.ch = {i}; shm->ch[1] = i; shm->ch[0] = 1; }
      shm->unit = ui; shm->icase = i; shm->running = 1;
      c.want_sample = (w < 3 && nsamp < 1);
      size_t ns = c.samples.size(); bool disc = false;
      arm(u.cpu ? u.cpu : g_cpu_limit);
      std::string m;
      if (u.isolate) {
        // generate choices in the child, mirror through shm
        int p[2]; if (pipe(p)) _exit(4);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
          close(p[0]); arm(u.cpu ? u.cpu : g_cpu_limit);
          Ctx cc; cc.unit = u.name; cc.tier = g_tier; cc.want_sample = c.want_sample;
          std::string mm = run_body(u, s, cc, &disc);
          FILE *o = fdopen(p[1], "wb");
          put(o, mm); put(o, (uint64_t)disc); put(o, (uint64_t)cc.case_nt); put(o, cc.evals); put(o, cc.nontriv);
          put(o, (uint64_t)cc.labels.size()); for (auto &l : cc.labels) { put(o, l.first); put(o, l.second); }
          put(o, (uint64_t)cc.samples.size()); for (auto &l : cc.samples) put(o, l);
          put(o, (uint64_t)cc.distinct.size()); for (auto h : cc.distinct) put(o, h);
          fclose(o); _exit(0);
        }
        close(p[1]); FILE *in = fdopen(p[0], "rb"); uint64_t d = 0, nt = 0, ev = 0, ntn = 0, n = 0; bool okr = get(in, m) && get(in, d) && get(in, nt) && get(in, ev) && get(in, ntn) && get(in, n);
        for (uint64_t k = 0; okr && k < n; k++) { std::string l; uint64_t v; okr = get(in, l) && get(in, v); if (okr) c.labels[l] += v; }
        okr = okr && get(in, n); for (uint64_t k = 0; okr && k < n; k++) { std::string l; okr = get(in, l); if (okr) c.samples.push_back(l); }
        okr = okr && get(in, n); for (uint64_t k = 0; okr && k < n; k++) { uint64_t h; okr = get(in, h); if (okr) c.distinct.insert(h); }
        fclose(in); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) m = sig_kind(WTERMSIG(st));
        else if (!okr) m = strf("case process ended abnormally (exit status %d)", WEXITSTATUS(st));
        disc = d; c.case_nt = nt; c.evals += ev; c.nontriv += ntn;
        s.ch.assign(shm->ch + 1, shm->ch + 1 + std::min<uint64_t>(shm->ch[0], SHMCAP));
        if (u.enumerate) s.ch = {i};
      } else {
        m = run_body(u, s, c, &disc);
      }
      shm->running = 0;
      if (u.enumerate) s.ch = {i};
      if (!m.empty()) { fd.any = true; fd.unit = u.name; fd.msg = m; fd.kind = "fail"; fd.icase = i; fd.ch = s.ch; break; }
      if (disc) { c.discards++; continue; }
      evals++;
      if (c.case_nt) { c.nontriv++; if (c.distinct.size() < 2000000) c.distinct.insert(hash_bytes(s.ch.data(), s.ch.size() * 8, 77)); }
      if (c.want_sample && c.samples.size() == ns && c.case_nt) c.samples.push_back("choices " + choices_text(s.ch));
      if (c.samples.size() > ns) nsamp++;
    }
    arm(0);
    put(f, (uint64_t)1); put(f, (uint64_t)ui); put(f, evals + c.evals); put(f, c.nontriv); put(f, c.discards); put(f, (uint64_t)trunc);
    put(f, (uint64_t)((now() - t0) * 1e6));
    put(f, (uint64_t)c.labels.size()); for (auto &l : c.labels) { put(f, l.first); put(f, l.second); }
    put(f, (uint64_t)c.samples.size()); for (auto &l : c.samples) put(f, l);
    put(f, (uint64_t)c.distinct.size()); for (auto h : c.distinct) put(f, h);
    fflush(f);
    if (fd.any) {
      put(f, (uint64_t)2); put(f, fd.unit); put(f, fd.msg); put(f, fd.icase); put(f, (uint64_t)fd.ch.size()); for (auto v : fd.ch) put(f, v);
      fclose(f); _exit(1);
    }
  }
  put(f, (uint64_t)0); fclose(f); _exit(0);
}

std::string jesc(const std::string &s) {
  std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch); else o += ch; } return o + "\"";
}

std::vector<UnitStats> g_stats;
void read_worker(int w, Found &fd) {
  FILE *f = fopen((g_tmp + strf("/w%d", w)).c_str(), "rb"); if (!f) return;
  uint64_t tag; 
  while (get(f, tag) && tag) {
    if (tag == 1) {
      uint64_t ui, e, nt, d, tr, us, n; if (!(get(f, ui) && get(f, e) && get(f, nt) && get(f, d) && get(f, tr) && get(f, us) && get(f, n))) break;
      if (ui >= g_stats.size()) break;
      UnitStats &s = g_stats[ui]; s.evals += e; s.nontriv += nt; s.discards += d; s.truncated |= tr; s.secs = std::max(s.secs, us * 1e-6);
      for (uint64_t k = 0; k < n; k++) { std::string l; uint64_t v; if (!get(f, l) || !get(f, v)) break; s.labels[l] += v; }
      if (!get(f, n)) break; for (uint64_t k = 0; k < n; k++) { std::string l; if (!get(f, l)) break; if (s.samples.size() < 4) s.samples.push_back(l); }
      if (!get(f, n)) break; for (uint64_t k = 0; k < n; k++) { uint64_t h; if (!get(f, h)) break; s.distinct.insert(h); }
    } else if (tag == 2) {
      Found x; x.any = true; uint64_t n; if (!(get(f, x.unit) && get(f, x.msg) && get(f, x.icase) && get(f, n))) break;
      x.ch.resize(n); for (auto &v : x.ch) if (!get(f, v)) break;
      x.worker = w; x.kind = "fail"; if (!fd.any) fd = x;
      break;
    } else break;
  }
  fclose(f);
}

const Unit *find_unit(const std::string &n) { for (auto &u : g_check.units) if (u.name == n) return &u; return nullptr; }

// greedy shrink over the choice sequence
void shrink(const Unit &u, std::vector<uint64_t> &best, std::string &msg, double budget) {
  double end = now() + budget; int tries = 0;
  bool hang = msg.find("CPU time") != std::string::npos;
  auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
    if (now() > end || tries > 4000) return false; tries++;
    std::vector<uint64_t> used; std::string m = run_forked(u, c, &used, nullptr, hang ? 5 : CPU(u));
    if (m.empty()) return false;
    bool isharp = used.size() < best.size() || (used.size() == best.size() && used < best);
    std::vector<uint64_t> cand = used;
    if (c.size() < cand.size() ) { // trailing zeros implied
      while (cand.size() > c.size() && cand.back() == 0) cand.pop_back();
      isharp = cand.size() < best.size() || (cand.size() == best.size() && cand < best);
    }
    if (!isharp) return false;
    best = cand; msg = m; return true;
  };
  if (u.enumerate) { return; }
  bool prog = true;
  while (prog && now() < end) {
    prog = false;
    // drop tail
    for (size_t k = best.size() / 2; k >= 1; k /= 2) while (best.size() > k) { auto c = best; c.resize(c.size() - k); if (!attempt(c)) break; prog = true; }
    // delete blocks
    for (size_t k : {8, 4, 2, 1}) for (size_t i = best.size(); i-- > 0;) { if (i + k > best.size()) continue; auto c = best; c.erase(c.begin() + i, c.begin() + i + k); if (attempt(c)) prog = true; }
    // zero, then binary-reduce values
    for (size_t i = 0; i < best.size(); i++) {
      if (!best[i]) continue;
      auto c = best; c[i] = 0; if (attempt(c)) { prog = true; continue; }
      uint64_t lo = 0;
      for (int it = 0; it < 64 && i < best.size() && best[i] - lo > 1; it++) { uint64_t mid = lo + (best[i] - lo) / 2; c = best; c[i] = mid; if (attempt(c)) prog = true; else lo = mid; if (now() > end) break; }
    }
  }
}

bool load_replay(const std::string &path, std::string &unit, std::vector<uint64_t> &ch, std::map<std::string, std::string> &kv) {
  std::ifstream in(path); if (!in) return false; std::string line;
  while (std::getline(in, line)) { size_t p = line.find('='); if (p == std::string::npos || line[0] == '#') continue; kv[line.substr(0, p)] = line.substr(p + 1); }
  unit = kv["unit"]; std::stringstream ss(kv["choices"]); uint64_t v; ch.clear(); while (ss >> v) ch.push_back(v); return true;
}

// rerun a worker's history prefix in a fresh process; true if it fails again at or before icase
bool history_fails(int w, int ui, uint64_t icase, bool onlyunit, std::string *msg) {
  ShmHdr *shm = (ShmHdr *)mmap(nullptr, sizeof(ShmHdr), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(nullptr); pid_t pid = fork();
  if (pid == 0) { g_tmp += "/h"; worker(w, shm, now() + 300, ui, icase, onlyunit ? ui : -1); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  munmap(shm, sizeof(ShmHdr));
  if (WIFSIGNALED(st)) { if (msg) *msg = sig_kind(WTERMSIG(st)); return true; }
  return WEXITSTATUS(st) == 1;
}
}  // namespace

int engine_main(int argc, char **argv) {
  std::string out, replay, rdir = "/tmp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") g_tier = nx() == "thorough"; else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--jobs") g_jobs = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replaydir") rdir = nx();
    else if (a == "--scale") g_scale = atof(nx().c_str()); else if (a == "--unit") g_only = nx(); else if (a == "--budget") g_budget = atof(nx().c_str());
    else if (a == "--replay") replay = nx(); else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  define_check(g_check, g_tier);
  if (!replay.empty()) {
    std::string un; std::vector<uint64_t> ch; std::map<std::string, std::string> kv;
    if (!load_replay(replay, un, ch, kv)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    const Unit *u = find_unit(un); if (!u) { fprintf(stderr, "unknown unit %s\n", un.c_str()); return 2; }
    if (kv["mode"] == "history") {
      g_seed = strtoull(kv["seed"].c_str(), 0, 10); g_jobs = atoi(kv["jobs"].c_str()); g_tier = kv["tier"] == "thorough"; g_scale = atof(kv["scale"].c_str());
      char tb[] = "/tmp/vfreplayXXXXXX"; if (!mkdtemp(tb)) return 2; g_tmp = tb; mkdir((g_tmp + "/h").c_str(), 0700);
      std::string m; bool f = history_fails(atoi(kv["worker"].c_str()), (int)(u - &g_check.units[0]), strtoull(kv["case"].c_str(), 0, 10), kv["onlyunit"] == "1", &m);
      int rc = system(("/bin/rm -rf " + g_tmp).c_str()); (void)rc;
      printf(f ? "REPLAY fails: %s\n" : "REPLAY passes%s\n", f ? m.c_str() : ""); return f ? 1 : 0;
    }
    std::string m = run_forked(*u, ch, nullptr, nullptr, CPU(*u));
    if (m.empty()) { printf("REPLAY passes\n"); return 0; }
    printf("REPLAY fails: %s\n", m.c_str()); return 1;
  }
  char tb[] = "/tmp/vfrunXXXXXX"; if (!mkdtemp(tb)) return 2; g_tmp = tb; mkdir((g_tmp + "/h").c_str(), 0700);
  g_stats.resize(g_check.units.size());
  double t0 = now(), deadline = t0 + g_budget;
  std::vector<pid_t> pids(g_jobs); std::vector<ShmHdr *> shms(g_jobs);
  fflush(nullptr);
  for (int w = 0; w < g_jobs; w++) {
    shms[w] = (ShmHdr *)mmap(nullptr, sizeof(ShmHdr), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pids[w] = fork();
    if (pids[w] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(w, shms[w], deadline); }
  }
  Found fd; int left = g_jobs; bool killed = false; std::vector<bool> killedw(g_jobs, false);
  while (left) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int k = 0; k < g_jobs; k++) if (pids[k] == p) w = k; if (w < 0) continue;
    pids[w] = 0; left--;
    if (killedw[w]) continue;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 1)) {
      Found x; x.any = true; x.worker = w; x.kind = "crash"; x.icase = shms[w]->icase; x.unit = g_check.units[shms[w]->unit].name;
      x.msg = WIFSIGNALED(st) ? sig_kind(WTERMSIG(st)) : strf("worker ended with status %d", WEXITSTATUS(st));
      uint64_t n = std::min<uint64_t>(shms[w]->ch[0], SHMCAP); x.ch.assign(shms[w]->ch + 1, shms[w]->ch + 1 + n);
      if (!fd.any && shms[w]->running) fd = x;
      else if (!fd.any) fprintf(stderr, "engine: worker %d ended outside a case: %s\n", w, x.msg.c_str());
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { Found x; for (auto &s : g_stats) (void)s; std::vector<UnitStats> save = g_stats; read_worker(w, x); g_stats = save; if (x.any && !fd.any) fd = x; }
    if (fd.any && !killed) { killed = true; for (int k = 0; k < g_jobs; k++) if (pids[k] > 0) { killedw[k] = true; kill(pids[k], SIGKILL); } }
  }
  { Found dummy; for (int w = 0; w < g_jobs; w++) read_worker(w, dummy); }
  std::string viol, vmsg; bool flaky = false;
  if (fd.any) {
    const Unit *u = find_unit(fd.unit); size_t ui = u - &g_check.units[0];
    fprintf(stderr, "engine: failure in unit %s case %llu: %s\n", fd.unit.c_str(), (unsigned long long)fd.icase, fd.msg.c_str());
    bool hang = fd.msg.find("CPU time limit") != std::string::npos;   // confirmed once: repetitions would take minutes each
    int hits = 0, n = 0; if (hang && CPU(*u) > 5) { n = 3; std::string m = run_forked(*u, fd.ch, nullptr, nullptr, CPU(*u)); if (!m.empty()) hits = 3; }
    for (; n < 10 && hits < 3; n++) { std::string m = run_forked(*u, fd.ch, nullptr, nullptr, CPU(*u)); if (!m.empty()) hits++; else if (n >= 3 && hits == 0) break; }
    std::string path = rdir + "/" + g_check.id + "_" + fd.unit + ".replay";
    for (auto &chh : path) if (chh == ' ') chh = '_';
    if (hits >= 3) {
      std::string m = fd.msg; std::vector<uint64_t> best = fd.ch;
      if (n == 3 && !(hang && CPU(*u) > 30)) shrink(*u, best, m, 60);
      int again = hang ? 3 : 0; for (int k = 0; k < 3 && !hang; k++) if (!run_forked(*u, best, nullptr, nullptr, CPU(*u)).empty()) again++;
      if (again < 3 && n == 3) { best = fd.ch; m = fd.msg; }
      FILE *f = fopen(path.c_str(), "w");
      if (f) { fprintf(f, "# replay of a failing case: python3 check.py %s --replay %s\nproperty=%s\nmode=case\nunit=%s\nmessage=%s\nchoices=", g_check.id.c_str(), path.c_str(), g_check.id.c_str(), fd.unit.c_str(), m.c_str());
        for (auto v : best) fprintf(f, "%llu ", (unsigned long long)v); fprintf(f, "\n"); fclose(f); }
      viol = path; vmsg = m;
    } else {
      // not reproducible as a single case: depends on what ran before it in that process
      for (int only = 1; only >= 0 && viol.empty(); only--) {
        bool all = true; for (int k = 0; k < 3 && all; k++) all = history_fails(fd.worker, (int)ui, fd.icase, only, nullptr);
        if (all) {
          FILE *f = fopen(path.c_str(), "w");
          if (f) { fprintf(f, "# replay of a failing history (the case fails only after the cases before it)\nproperty=%s\nmode=history\nunit=%s\nmessage=%s\nseed=%llu\njobs=%d\nworker=%d\ncase=%llu\nonlyunit=%d\ntier=%s\nscale=%g\nchoices=", g_check.id.c_str(), fd.unit.c_str(), fd.msg.c_str(), (unsigned long long)g_seed, g_jobs, fd.worker, (unsigned long long)fd.icase, only, g_tier ? "thorough" : "quick", g_scale);
            for (auto v : fd.ch) fprintf(f, "%llu ", (unsigned long long)v); fprintf(f, "\n"); fclose(f); }
          viol = path; vmsg = fd.msg;
        }
      }
      if (viol.empty()) { flaky = true; vmsg = fd.msg; }
    }
  }
  // result
  std::string j = "{\n";
  j += "\"id\":" + jesc(g_check.id) + ",\"level\":" + jesc(g_check.level) + ",\"wall_s\":" + strf("%.3f", now() - t0) + ",\"rule\":" + jesc(g_check.rule) + ",\n\"assumptions\":[";
  for (size_t i = 0; i < g_check.assumptions.size(); i++) j += (i ? "," : "") + jesc(g_check.assumptions[i]);
  j += "],\n\"notes\":{"; { bool first = true; for (auto &n : g_check.notes) { j += (first ? "" : ",") + jesc(n.first) + ":" + jesc(n.second); first = false; } }
  j += "},\n\"units\":[\n"; bool firstu = true; uint64_t tot = 0, nt = 0;
  for (size_t i = 0; i < g_stats.size(); i++) {
    UnitStats &s = g_stats[i]; Unit &u = g_check.units[i]; if (!g_only.empty() && u.name != g_only) continue;
    tot += s.evals; uint64_t d = s.distinct.size(); nt += d;
    j += (firstu ? "" : ",\n"); firstu = false;
    j += "{\"name\":" + jesc(u.name) + strf(",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"truncated\":%s,\"enumerated\":%s,\"secs\":%.2f", (unsigned long long)s.evals, (unsigned long long)s.nontriv, (unsigned long long)d, (unsigned long long)s.discards, s.truncated ? "true" : "false", u.enumerate ? "true" : "false", s.secs);
    j += ",\"labels\":{"; bool f1 = true; for (auto &l : s.labels) { j += (f1 ? "" : ",") + jesc(l.first) + strf(":%llu", (unsigned long long)l.second); f1 = false; }
    j += "},\"samples\":["; for (size_t k = 0; k < s.samples.size(); k++) j += (k ? "," : "") + jesc(s.samples[k]);
    j += "]}";
  }
  j += strf("],\n\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"flaky\":%s,", (unsigned long long)tot, (unsigned long long)nt, flaky ? "true" : "false");
  j += "\"violation\":" + (viol.empty() ? std::string("null") : jesc(viol)) + ",\"message\":" + jesc(vmsg) + "}\n";
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(j.c_str(), f); fclose(f); } else fputs(j.c_str(), stdout);
  for (auto s : shms) munmap(s, sizeof(ShmHdr));
  int rc = system(("/bin/rm -rf " + g_tmp).c_str()); (void)rc;
  return viol.empty() ? 0 : 1;
}

#ifdef ENGINE_FUZZ
// libFuzzer driver: first byte picks the unit, the rest are choices.
extern "C" int LLVMFuzzerInitialize(int *, char ***) { define_check(g_check, 0); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  if (n < 1) return 0;
  static std::vector<const Unit *> us; static uint64_t execs = 0, nts = 0; static std::unordered_set<uint64_t> dist; 
  if (us.empty()) { std::string only = envs("VF_FUZZ_UNIT", ""); for (auto &u : g_check.units) if (u.fuzz && (only.empty() || u.name == only)) us.push_back(&u);
    atexit([] { const char *p = getenv("VF_FUZZ_STATS"); if (p) { FILE *f = fopen(p, "w"); if (f) { fprintf(f, "%llu %llu\n", (unsigned long long)execs, (unsigned long long)dist.size()); fclose(f); } } }); }
  if (us.empty()) return 0;
  const Unit &u = *us[d[0] % us.size()];
  Src s; s.mode = Src::FUZZ; s.fz = d + 1; s.fzlen = n - 1; Ctx c; c.unit = u.name;
  // live copy of the choices for crashes
  static uint64_t *sh = nullptr; if (!sh) { const char *p = getenv("VF_FUZZ_SHM"); if (p) { int fd = open(p, O_RDWR | O_CREAT, 0600); if (fd >= 0 && !ftruncate(fd, 8 * (SHMCAP + 2))) sh = (uint64_t *)mmap(nullptr, 8 * (SHMCAP + 2), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (sh == MAP_FAILED) sh = nullptr; } }
  if (sh) { sh[0] = &u - &g_check.units[0]; sh[1] = 0; s.shm = sh + 1; s.shmcap = SHMCAP; }
  execs++;
  std::string m = run_body(u, s, c, nullptr);
  if (c.case_nt || c.nontriv) { nts++; if (dist.size() < 2000000) dist.insert(hash_bytes(s.ch.data(), s.ch.size() * 8, 77)); }
  if (!m.empty()) {
    const char *p = getenv("VF_FUZZ_FAIL"); if (p) { FILE *f = fopen(p, "w"); if (f) { fprintf(f, "property=%s\nmode=case\nunit=%s\nmessage=%s\nchoices=", g_check.id.c_str(), u.name.c_str(), m.c_str()); for (auto v : s.ch) fprintf(f, "%llu ", (unsigned long long)v); fprintf(f, "\n"); fclose(f); } }
    fprintf(stderr, "FUZZ FAILURE unit %s: %s\n", u.name.c_str(), m.c_str()); __builtin_trap();
  }
  return 0;
}
#else
__attribute__((weak)) int main(int argc, char **argv) { return engine_main(argc, argv); }
#endif

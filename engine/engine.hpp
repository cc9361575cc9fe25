// Choice-sequence property-based testing engine (Hypothesis-style) used by all checks.
// Every random decision of a case is an integer drawn through Src, recorded as a choice;
// a case IS its choice sequence, so shrinking and replay act on that sequence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <unordered_set>
#include <initializer_list>

typedef std::vector<uint8_t> Bytes;

struct Failure { std::string msg; };
struct Discard {};

static inline uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
struct Rng { uint64_t s; explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); } };

struct Src {
  enum Mode { RANDOM, REPLAY, FUZZ } mode = RANDOM;
  Rng rng;
  std::vector<uint64_t> ch;        // recorded (RANDOM/FUZZ) or given (REPLAY)
  std::vector<uint64_t> used;      // normalised choices actually consumed in REPLAY
  size_t pos = 0;
  const uint8_t *fz = nullptr; size_t fzlen = 0;
  uint64_t *shm = nullptr; size_t shmcap = 0;   // live mirror for crash recovery

  uint64_t draw(uint64_t max);                       // uniform in [0,max]
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
  int64_t  srange(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
  bool     coin(unsigned num, unsigned den) { return draw(den - 1) >= den - num; } // shrinks to false
  size_t   weighted(std::initializer_list<unsigned> w);   // shrinks to index 0
  // structured byte string: zeros / uniform / constant / counter / sparse / repeated block / literal, plus overlays
  Bytes    bytes(size_t n, unsigned overlays = 3);
  // plain uniformly random-looking bytes from a drawn 64-bit seed (with seed 0 -> zeros)
  Bytes    prng(size_t n);
};

struct Ctx {
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t nontriv = 0, evals = 0, discards = 0;
  bool verbose = false;
  std::string unit;
  bool want_sample = false;
  int tier = 0;
  uint64_t casehash = 0;
  bool case_nt = false;
  void label(const std::string &s) { labels[s]++; }
  // declare this case non-trivial (identity = hash of its choices, or an explicit one)
  void nontrivial() { case_nt = true; }
  void nontrivial_id(uint64_t h) { nontriv++; if (distinct.size() < 4000000) distinct.insert(h); }
  void sample(const std::string &s) { if (want_sample && samples.size() < 3) { samples.push_back(s); want_sample = false; } }
  bool sampling() const { return want_sample && samples.size() < 3; }
  [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
  void check(bool ok, const std::string &m) { if (!ok) throw Failure{m}; }
  void eq(const Bytes &a, const Bytes &b, const std::string &what);
  void eq(const void *a, const void *b, size_t n, const std::string &what);
  [[noreturn]] void discard() { throw Discard{}; }
};

struct Unit {
  std::string name;
  std::function<void(Src &, Ctx &)> body;
  uint64_t quick = 0, thorough = 0;   // number of generated cases
  bool enumerate = false;             // case i is the single choice i (exhaustive index space)
  std::string rule;                   // how cases are made / what is non-trivial
  int cpu = 0;                        // CPU seconds allowed per case (0: default 20)
  bool isolate = false;               // run each case in its own forked process (fault injection, aborts)
  bool fuzz = false;                  // also driven by libFuzzer (selected by first byte)
};

struct Check {
  std::string id;
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Unit> units;
  std::map<std::string, std::string> notes;  // e.g. skipped sub-checks
  std::string level = "exploration";
  void add(const std::string &name, uint64_t q, uint64_t t, std::function<void(Src &, Ctx &)> f, bool fuzz = false) {
    Unit u; u.name = name; u.quick = q; u.thorough = t; u.body = std::move(f); u.fuzz = fuzz; units.push_back(std::move(u)); }
  Unit &last() { return units.back(); }
  void add_enum(const std::string &name, uint64_t n, std::function<void(Src &, Ctx &)> f) {
    Unit u; u.name = name; u.quick = n; u.thorough = n; u.body = std::move(f); u.enumerate = true; units.push_back(std::move(u)); }
};

// Each property file defines this: register units. argv-independent.
void define_check(Check &c, int tier);

std::string hex(const uint8_t *p, size_t n, size_t maxn = 64);
static inline std::string hex(const Bytes &b, size_t maxn = 64) { return hex(b.data(), b.size(), maxn); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
const char *envs(const char *name, const char *dflt);

int engine_main(int argc, char **argv);

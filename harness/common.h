// Shared machinery of the monitors: deterministic job queue, per-job random source, reporting of
// observations (evaluations, distinct classes, counters, samples) and of violations.
#pragma once
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vf {

using bytes = std::vector<uint8_t>;
using cspan = std::span<const uint8_t>;

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashstr(std::string_view s) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ULL;
  return mix(h);
}

struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed) { for (auto& x : s) { seed = mix(seed); x = seed; } }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t u64() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint32_t u32() { return (uint32_t)(u64() >> 32); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  bytes raw(size_t n) {
    bytes b(n);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = u64(); memcpy(&b[i], &v, 8); }
    for (; i < n; i++) b[i] = (uint8_t)u64();
    return b;
  }
  // Bytes with a bias to structured content (runs of 00/ff, single bits, repeated bytes).
  bytes data(size_t n) {
    bytes b = n && n <= sizeof kin[0].v && chance(1, 6) ? relative(n) : fresh(n);
    if (n && n <= sizeof kin[0].v) { auto& k = kin[kins++ % 4]; k.n = n; memcpy(k.v, b.data(), n); }
    return b;
  }
  struct { size_t n = 0; uint8_t v[160]; } kin[4];   // what data() gave lately
  unsigned kins = 0;
  // Bytes that agree with recent ones of the same size but for a byte, a bit, the beginning, the end or nothing, or in part of them.
  bytes relative(size_t n) {
    for (unsigned i = 1; i <= 4; i++) {
      auto& k = kin[(kins - i) % 4];
      if (k.n != n) continue;
      bytes b(k.v, k.v + n);
      switch (below(6)) {
        case 0: break;
        case 1: b[below(n)] ^= uint8_t(1u << below(8)); break;
        case 2: b[below(n)] = (uint8_t)u64(); break;
        case 3: { bytes x = raw(n); std::copy(x.begin() + n / 2, x.end(), b.begin() + n / 2); break; }
        case 4: { bytes x = raw(n); std::copy(x.begin(), x.begin() + n / 2, b.begin()); break; }
        default: b[chance(1, 2) ? 0 : n - 1] ^= uint8_t(1u << below(8));
      }
      return b;
    }
    return fresh(n);
  }
  bytes fresh(size_t n) {
    switch (below(8)) {
      case 0: return bytes(n, 0);
      case 1: return bytes(n, 0xff);
      case 2: return bytes(n, (uint8_t)u64());
      case 3: { bytes b(n, 0); if (n) b[below(n)] = (uint8_t)(1u << below(8)); return b; }
      case 4: { bytes b = raw(n); for (auto& c : b) if (chance(1, 2)) c = chance(1, 2) ? 0 : 0xff; return b; }
      default: return raw(n);
    }
  }
};

// Large sizes of every order up to 2^maxlog, many next to a power of two or a multiple of one.
inline size_t biglen(Rng& r, unsigned maxlog) {
  size_t max = (size_t)1 << maxlog, n = (size_t)1 << r.range(11, maxlog - 1);
  switch (r.below(4)) {
    case 0: n = 2 * n + r.below(41) - 20; break;
    case 1: { size_t unit = (size_t)1 << r.range(8, maxlog - 2); n = unit * r.range(1, (2 * n) / unit + 1) + r.below(3) - 1; break; }
    default: n += r.below(n);
  }
  return n > max + 20 ? max : n;
}
// Sizes of a few pieces, small or large, that together make n bytes.
inline std::vector<size_t> bigpieces(Rng& r, size_t n) {
  std::vector<size_t> out;
  unsigned style = (unsigned)r.below(4);
  if (style && r.chance(1, 2)) { size_t k = std::min<size_t>(n, r.below(300)); out.push_back(k); n -= k; }
  while (n) {
    size_t k = style == 0 ? n : style == 1 ? r.range(1, n) : style == 2 ? ((size_t)1 << r.range(6, 20)) + r.below(3) - 1 : (r.chance(1, 2) ? r.range(1, 200) : r.range(1, n));
    if (out.size() > 40 || k > n) k = n;
    out.push_back(k); n -= k;
  }
  return out;
}

std::string hex(cspan b, size_t max = 96);
std::string jsonstr(std::string_view s);

struct Violation : std::runtime_error {
  std::string key;
  Violation(std::string key, std::string detail) : std::runtime_error(detail), key(key) {}
};

struct Monitor {
  uint64_t evals = 0;
  std::unordered_set<uint64_t> classes;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::string job;
  bool replay = false;
};
Monitor& mon();
// One observed execution. `cls` names its equivalence class for the distinct/non-trivial count; an empty
// class marks a trivial one.
void observed(std::string_view cls, uint64_t n = 1);
void count(const std::string& name, uint64_t n = 1);
void sample(const std::function<std::string()>& f);
[[noreturn]] void fail(const std::string& key, const std::string& detail);
inline void require(bool ok, std::string_view key, const std::function<std::string()>& detail) {
  if (!ok) fail(std::string(key), detail());
}
void require_same_bytes(cspan got, cspan want, std::string_view key, const std::function<std::string()>& ctx);
template <typename A, typename B>
inline void require_same(const A& got, const B& want, std::string_view key, const std::function<std::string()>& ctx) {
  require_same_bytes(cspan((const uint8_t*)got.data(), got.size()), cspan((const uint8_t*)want.data(), want.size()), key, ctx);
}

struct Stage {
  std::string name;
  uint64_t quick, thorough;   // number of jobs in each tier
  std::function<void(Rng&, uint64_t)> run;
  unsigned cpu_limit = 60;    // CPU seconds for one job before it counts as not terminating
};

struct SharedQueue {
  std::atomic<uint64_t> next;
  std::atomic<uint64_t> stop;
  std::atomic<uint64_t> current[64];
};

int run_main(int argc, char** argv, const std::vector<Stage>& stages);

// A buffer whose end (or start) lies at an inaccessible page, to observe over- and under-reads in uninstrumented code.
struct Guarded {
  uint8_t* base; size_t maplen; uint8_t* p; size_t n;
  Guarded(cspan src, bool at_end = true) : n(src.size()) {
    size_t pg = 4096, inner = (n + pg - 1) / pg * pg; if (!inner) inner = pg;
    maplen = inner + 2 * pg;
    base = (uint8_t*)mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) abort();
    mprotect(base + pg, inner, PROT_READ | PROT_WRITE);
    p = at_end ? base + pg + inner - n : base + pg;
    if (n) memcpy(p, src.data(), n);
  }
  Guarded(const Guarded&) = delete;
  ~Guarded() { munmap(base, maplen); }
  cspan get() const { return cspan(p, n); }
  std::span<uint8_t> mut() { return std::span<uint8_t>(p, n); }
};

} // namespace vf

#define VF_MAIN(...) int main(int argc, char** argv) { return vf::run_main(argc, argv, std::vector<vf::Stage> __VA_ARGS__); }

// Coverage-guided generation of inputs inside one job: inputs that made the instrumented code do something new are kept
// and mutated further. Deterministic for one build and seed. The edge counters and comparison hooks belong to
// clang's -fsanitize-coverage; where the code is built without it only the mutation remains.
#pragma once
#include "common.h"
namespace vf {
struct Coverage {
  uint8_t *start = nullptr, *stop = nullptr;
  static constexpr size_t kCmps = 1 << 16;
  uint8_t cmps[kCmps] = {};
  uint32_t touched[kCmps], ntouched = 0;   // the entries of cmps in use
  bool on = false;
};
Coverage& coverage();

class Evolution {
  Rng& r; std::vector<bytes> pop; std::vector<uint8_t> seen, seenCmp; size_t features = 0, edges = 0; size_t maxLen;
 public:
  using Mutator = std::function<void(Rng&, bytes&)>;
  std::vector<std::pair<unsigned, Mutator>> mutators;
  double budget = 20;   // CPU seconds
  static double cpu() { timespec t{}; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  Evolution(Rng& r, size_t maxLen) : r(r), maxLen(maxLen) {}
  size_t size() const { return pop.size(); }
  size_t found() const { return features; }
  // Runs f on the input; keeps the input when something new happened. Returns whether it did.
  template <typename F> bool tryout(const bytes& in, const std::string& what, F&& f) {
    Coverage& c = coverage();
    if (seen.size() != (size_t)(c.stop - c.start)) seen.resize(c.stop - c.start);
    seenCmp.resize(Coverage::kCmps);
    if (c.start) memset(c.start, 0, c.stop - c.start);
    for (uint32_t k = 0; k < c.ntouched; k++) c.cmps[c.touched[k]] = 0;
    c.ntouched = 0;
    c.on = true;
    try { f(in); } catch (...) { c.on = false; throw; }
    c.on = false;
    bool fresh = false;
    for (size_t i = 0; i < seen.size(); i++) {
      if (i + 8 <= seen.size()) { uint64_t w; __builtin_memcpy(&w, c.start + i, 8); if (!w) { i += 7; continue; } }
      uint8_t n = c.start[i]; if (!n) continue;
      uint8_t bucket = n < 4 ? (uint8_t)(1 << (n - 1)) : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
      if (!seen[i]) edges++;
      if (!(seen[i] & bucket)) { seen[i] |= bucket; fresh = true; features++; observed(what + "/" + std::to_string(i) + "/" + std::to_string(bucket), 0); }
    }
    for (uint32_t k = 0; k < c.ntouched; k++) { uint32_t i = c.touched[k]; if (c.cmps[i] & ~seenCmp[i]) { seenCmp[i] |= c.cmps[i]; fresh = true; features++; } }
    observed({}, 1);
    if (fresh || pop.empty()) { pop.push_back(in); }
    return fresh;
  }
  template <typename F> void run(size_t n, const std::string& what, F&& f) {
    unsigned total = 4; for (auto& m : mutators) total += m.first;
    double until = cpu() + budget * (mon().replay ? 5 : 1);
    size_t i = 0;
    for (; i < n && cpu() < until; i++) {
      size_t at = r.chance(1, 3) ? pop.size() - 1 - r.below(std::min<size_t>(pop.size(), 8)) : r.below(pop.size());
      bytes d = pop[at];
      for (size_t k = (size_t)1 << r.below(4); k--;) {
        unsigned w = (unsigned)r.below(total); bool done = false;
        for (auto& m : mutators) { if (w < m.first) { m.second(r, d); done = true; break; } w -= m.first; }
        if (!done) plain(d);
      }
      if (d.size() > maxLen) d.resize(maxLen);
      tryout(d, what, f);
    }
    count(what + ": edges reached (sum over jobs)", edges); count(what + ": behaviours (sum over jobs)", features); count(what + ": inputs kept", pop.size()); count(what + ": executions", i);
  }
  void plain(bytes& d) {
    switch (r.below(10)) {
      case 0: if (d.size()) d[r.below(d.size())] ^= (uint8_t)(1 << r.below(8)); break;
      case 1: if (d.size()) d[r.below(d.size())] = (uint8_t)r.u32(); break;
      case 2: if (d.size()) d[r.below(d.size())] = r.pick(std::vector<uint8_t>{0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0xbc, 0x30}); break;
      case 3: d.insert(d.begin() + r.below(d.size() + 1), (uint8_t)r.u32()); break;
      case 4: if (d.size()) { size_t a = r.below(d.size()), n = std::min<size_t>(d.size() - a, 1 + r.below(r.chance(1, 4) ? 64 : 4)); d.erase(d.begin() + a, d.begin() + a + n); } break;
      case 5: if (d.size()) { size_t a = r.below(d.size()), n = std::min<size_t>(d.size() - a, 1 + r.below(32)); bytes c(d.begin() + a, d.begin() + a + n); d.insert(d.begin() + r.below(d.size() + 1), c.begin(), c.end()); } break;
      case 6: if (d.size()) { size_t a = r.below(d.size()), n = std::min<size_t>(d.size() - a, 1 + r.below(32)), b = r.below(d.size() - n + 1); bytes c(d.begin() + a, d.begin() + a + n); std::copy(c.begin(), c.end(), d.begin() + b); } break;
      case 7: if (d.size()) d[r.below(d.size())] += (uint8_t)(r.below(9) - 4); break;
      case 8: if (pop.size()) { const bytes& o = r.pick(pop); if (o.size() && d.size()) { size_t a = r.below(d.size() + 1), b = r.below(o.size()); d.resize(a); d.insert(d.end(), o.begin() + b, o.end()); } } break;
      default: { bytes c = r.data(r.below(9)); if (r.chance(1, 2)) d.insert(d.begin() + r.below(d.size() + 1), c.begin(), c.end()); else if (d.size() >= c.size() && c.size()) std::copy(c.begin(), c.end(), d.begin() + r.below(d.size() - c.size() + 1)); }
    }
  }
};
}  // namespace vf

// Every public operation of the library as a named, repeatable step: the same seed gives the same inputs and, where
// the library keeps its promises, the same results, whatever the memory around looks like.
#pragma once
#include "common.h"
namespace vf {
struct Place { unsigned shift = 0; };                 // distance of buffers from the allocator's alignment
struct Call {
  Place place;
  bytes result;
  struct Buf { uint8_t* raw; uint8_t* p; size_t n; bytes was; bool fixed; };
  std::vector<std::unique_ptr<Buf>> bufs;
  explicit Call(Place p) : place(p) {}
  Call(const Call&) = delete;
  ~Call() { for (auto& b : bufs) free(b->raw); }
  std::span<uint8_t> make(cspan d, bool fixed);
  cspan in(cspan d) { return make(d, true); }          // an exactly sized buffer the library must not change
  std::string_view text(std::string_view s) { cspan d = in(cspan((const uint8_t*)s.data(), s.size())); return {(const char*)d.data(), d.size()}; }
  std::span<uint8_t> inout(cspan d) { return make(d, false); }
  void out(cspan d) { uint32_t n = (uint32_t)d.size(); result.insert(result.end(), (uint8_t*)&n, (uint8_t*)&n + 4); result.insert(result.end(), d.begin(), d.end()); }
  void out(const std::string& s) { out(cspan((const uint8_t*)s.data(), s.size())); }
  void out(bool b) { result.push_back(b); }
  void num(uint64_t v) { result.insert(result.end(), (uint8_t*)&v, (uint8_t*)&v + 8); }
  void intact() const;                                  // fails when an input was changed
};
struct ApiOp {
  std::string name;
  std::function<void(Rng&, Call&)> run;
  unsigned weight = 10;   // relative frequency (cheap operations more often; 0: expensive, not picked at random)
  enum Kind { Pure, Random, Store } kind = Pure;   // Random: results are not repeatable; Store: uses the process-wide trust store
};
struct SizedOp { std::string name; std::function<void(Rng&, Call&, size_t)> run; size_t max = ~(size_t)0; };   // one byte input of exactly the given size
const std::vector<SizedOp>& sized_ops();
const std::vector<ApiOp>& api_ops();
const ApiOp& pick_op(Rng& r, bool store);
inline bool wants_large(uint64_t seed) { return seed % 8 == 7; }
bytes call(const ApiOp& op, uint64_t seed, Place p);    // (inputs up to 16 KiB where wants_large(seed)); result, including a thrown exception's text
void warm_inputs();                                     // builds the inputs' own caches (keys, certificates), touching no library code
} // namespace vf

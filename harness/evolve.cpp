#include "evolve.h"
namespace vf {
Coverage& coverage() { static Coverage* c = new Coverage; return *c; }
static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
  Coverage& c = coverage();
  if (!c.on) return;
  unsigned same = (unsigned)__builtin_popcountll(a ^ b);
  uint64_t h = mix(pc * 67 + same);
  uint8_t& slot = c.cmps[h & 0xffff];
  if (!slot && c.ntouched < Coverage::kCmps) c.touched[c.ntouched++] = h & 0xffff;
  slot |= (uint8_t)(1 << ((h >> 16) & 7));
}
}  // namespace vf
// Relative to a function of the program, so that the program's load address plays no role.
#define PC() ((uintptr_t)__builtin_return_address(0) - (uintptr_t)&vf::coverage)
extern "C" {
void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop) { auto& c = vf::coverage(); if (!c.start) { c.start = start; c.stop = stop; } }
void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { vf::cmp(PC(), a, b); }
void __sanitizer_cov_trace_switch(uint64_t, uint64_t*) {}
}

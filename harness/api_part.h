// Shared by the parts of the whole-interface workload.
#pragma once
#include "apiall.h"
#include <caligo/bignum.h>
namespace vf {
extern thread_local bool large_inputs;   // this call uses inputs of 2 to 16 KiB, too
inline size_t upto(Rng& r, size_t n) { return large_inputs && r.chance(1, 2) ? biglen(r, 14) : (size_t)r.below(n); }
inline size_t len(Rng& r) { if (large_inputs && r.chance(1, 2)) return biglen(r, 14); switch (r.below(5)) { case 0: return r.below(4); case 1: return 16 * r.below(8) + r.below(3); case 2: return r.below(300); case 3: return 64 * r.range(1, 4) + r.below(17) - 8; default: return r.below(70); } }
template <size_t N> inline void outn(Call& c, const Caligo::bignum<N>& b) { c.out(b.as_bytes()); }
using Ops = std::vector<ApiOp>;
void add_sized_ciphers(std::vector<SizedOp>& v); void add_hashes(Ops& v); void add_ciphers(Ops& v); void add_numbers(Ops& v); void add_x509(Ops& v);
inline void add(Ops& v, const std::string& n, std::function<void(Rng&, Call&)> f, unsigned w, ApiOp::Kind k = ApiOp::Pure) { v.push_back({n, std::move(f), w, k}); }
} // namespace vf

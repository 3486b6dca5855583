// C28: the whole interface under memory instrumentation. The same call is repeated with different contents of fresh
// heap and stack memory and different buffer positions; results, inputs and live allocations are compared.
// Built three ways: with AddressSanitizer/UBSan, for memcheck (definedness of results), and plain with this allocator.
#include "apiall.h"
#include <alloca.h>
#include <malloc.h>
#include <valgrind/memcheck.h>
using namespace vf;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
static bool own_heap() { return false; }
static void heap_fill(int) {}
static int64_t live() { return 0; }
#else
// An allocator that fills fresh and released memory with a chosen pattern, keeps canaries and counts.
static int g_fill = -1;
static int64_t g_live = 0;
static bool g_on = false;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
struct Head { size_t n; uint64_t magic; };
static const uint64_t kMagic = 0x5afe0a110c8ed001ULL;
static void* vf_alloc(size_t n) {
  Head* h = (Head*)__libc_malloc(n + sizeof(Head) + 16);
  if (!h) return nullptr;
  h->n = n; h->magic = kMagic ^ n;
  uint8_t* p = (uint8_t*)(h + 1);
  if (g_fill >= 0) for (size_t i = 0; i < n; i++) p[i] = g_fill == 256 ? (uint8_t)mix((uintptr_t)p + i) : (uint8_t)g_fill;
  memset(p + n, 0xc7, 16);
  g_live++;
  return p;
}
static void vf_release(void* p) {
  if (!p) return;
  Head* h = (Head*)p - 1;
  if (h->magic != (kMagic ^ h->n)) { static const char m[] = "heap: released memory that was not allocated, or overwritten before its start\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
  for (int i = 0; i < 16; i++) if (((uint8_t*)p)[h->n + i] != 0xc7) { static const char m[] = "heap: memory overwritten behind its end\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
  h->magic = 0;
  if (g_fill >= 0) memset(p, 0xdb, h->n);
  g_live--;
  __libc_free(h);
}
}
void* operator new(size_t n) { if (RUNNING_ON_VALGRIND) return malloc(n); void* p = vf_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (RUNNING_ON_VALGRIND) free(p); else vf_release(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static bool own_heap() { return !RUNNING_ON_VALGRIND; }
static void heap_fill(int f) { g_fill = f; }
static int64_t live() { return g_live; }
#endif

[[gnu::noinline]] static void scribble(int fill, size_t n) {
  volatile uint8_t* p = (volatile uint8_t*)alloca(n);
  for (size_t i = 0; i < n; i++) p[i] = fill == 256 ? (uint8_t)mix(i) : (uint8_t)fill;
  asm volatile("" ::: "memory");
}
[[gnu::noinline]] static bytes under(const ApiOp& op, uint64_t seed, Place p, int fill) {
  heap_fill(fill);
  if (fill >= 0) scribble(fill, 120000);
  bytes b;
  try { b = call(op, seed, p); } catch (...) { heap_fill(-1); throw; }
  heap_fill(-1);
  return b;
}
static void one(Rng& r, const ApiOp& op) {
  uint64_t seed = r.u64();
  Place p{(unsigned)r.below(16)};
  auto what = [&] { return op.name + " (seed " + std::to_string(seed) + ")"; };
  bool valgrind = RUNNING_ON_VALGRIND;
  int fills[] = {0, 0xff, 256};
  bytes first = under(op, seed, p, fills[r.below(3)]);
  if (valgrind && !first.empty()) {
    size_t at = VALGRIND_CHECK_MEM_IS_DEFINED(first.data(), first.size());
    if (at) fail("undefined-result", what() + ": part of the result (at " + std::to_string(at - (size_t)first.data()) + " of " + std::to_string(first.size()) + ") was computed from uninitialised memory");
    count("result bytes checked for definedness", first.size());
  }
  if (op.weight > 0 && !valgrind) {
    int only = op.weight > 2 ? -2 : fills[r.below(3)];   // expensive calls are repeated once
    for (int f : fills) {
      if (only != -2 && f != only) continue;
      Place q{(unsigned)r.below(16)};
      int64_t before = live();
      bytes again = under(op, seed, q, f);
      if (op.kind == ApiOp::Pure) require_same(again, first, "depends-on-memory", [&] { return what() + " with memory filled with " + std::to_string(f) + " at offset " + std::to_string(q.shift) + ":"; });
      if (own_heap()) {
        size_t keep = again.capacity() ? 1 : 0;
        require(live() - (int64_t)keep == before, "leak", [&] { return what() + ": " + std::to_string(live() - (int64_t)keep - before) + " allocations remain after the call"; });
      }
      count("repetitions compared");
    }
  }
  observed(op.name + "/" + std::to_string(first.size() % 97) + "/" + std::to_string(p.shift), 1);
  sample([&] { return what() + " gave " + std::to_string(first.size()) + " result bytes"; });
}
static void ops(Rng& r, uint64_t j) {
  int n = RUNNING_ON_VALGRIND ? 12 : 60;
  for (int k = 0; k < n; k++) one(r, pick_op(r, true));
  (void)j;
}
static void each(Rng& r, uint64_t j) {
  const ApiOp& op = api_ops()[j % api_ops().size()];
  int n = op.weight == 0 ? 1 : op.weight <= 2 ? 2 : RUNNING_ON_VALGRIND ? 3 : 12;
  for (int k = 0; k < n; k++) one(r, op);
}
// Every length up to a few blocks and around every power of two, through exactly sized buffers of every operation that takes bytes.
static void edges(Rng& r, uint64_t j) {
  static const std::vector<size_t> sizes = [] { std::set<size_t> s; for (size_t n = 0; n < 300; n++) s.insert(n); for (unsigned k = 8; k <= 16; k++) for (int d = -2; d <= 2; d++) { s.insert(((size_t)1 << k) + d); s.insert(3 * ((size_t)1 << (k - 1)) + d); } return std::vector<size_t>(s.begin(), s.end()); }();
  auto& ops = sized_ops(); const SizedOp& op = ops[j % ops.size()];
  if (RUNNING_ON_VALGRIND && j >= ops.size()) return;
  for (size_t i = 0; i < sizes.size(); i++) {
    size_t n = sizes[i]; if (n > op.max) continue;
    if (RUNNING_ON_VALGRIND && !r.chance(1, 12)) continue;
    uint64_t seed = r.u64();
    auto go = [&](int fill) { heap_fill(fill); Call c(Place{(unsigned)r.below(16)}); Rng q(seed); try { op.run(q, c, n); } catch (const Violation&) { heap_fill(-1); throw; } catch (const std::exception& e) { c.out(std::string(e.what())); } heap_fill(-1); c.intact(); return std::move(c.result); };
    bytes a = go(0), b = go(0xff);
    require_same(b, a, "depends-on-memory", [&] { return op.name + " of " + std::to_string(n) + " bytes (seed " + std::to_string(seed) + "):"; });
    if (RUNNING_ON_VALGRIND && !a.empty()) if (size_t at = VALGRIND_CHECK_MEM_IS_DEFINED(a.data(), a.size())) fail("undefined-result", op.name + " of " + std::to_string(n) + " bytes, at " + std::to_string(at - (size_t)a.data()));
    observed("edge/" + op.name + "/" + std::to_string(n), 2); count("exact sizes");
  }
}
int main(int argc, char** argv) {
  warm_inputs();
  uint64_t n = api_ops().size();
  return run_main(argc, argv, { {"edges", sized_ops().size(), 6 * sized_ops().size(), edges, 100}, {"each", n, n * 20, each, 60}, {"mixed", 240, 8000, ops, 60} });
}

// C08: GCM encryption against the SP 800-38D model and OpenSSL, over message sequences and counter boundaries.
#include "gcmref.h"
#include "relocate.h"
#include <caligo/aes.h>
#include <caligo/gcm.h>
using namespace vf;

struct Enc {
  virtual ~Enc() = default;
  virtual ref::Sealed seal(cspan pt, cspan aad) = 0;
  virtual void move(Rng& r) = 0;      // go on with another object that takes over the state
  virtual bool jump(uint64_t n) = 0;  // continue with message number n, where the implementation lets us
};
template <size_t bits> struct Box final : Enc {
  using G = Caligo::GCM<Caligo::AES<bits>>;
  static std::unique_ptr<G> fresh(cspan key, cspan iv) { return std::make_unique<G>(Caligo::key_iv_pair<Caligo::AES<bits>>(key, iv)); }
  std::unique_ptr<G> g;
  Box(cspan key, cspan iv) : g(fresh(key, iv)) {}
  void move(Rng& r) override { relocate(g, fresh(r.raw(bits / 8), r.raw(12)), (unsigned)r.below(4)); }
  ref::Sealed seal(cspan pt, cspan aad) override { auto [c, t] = g->Encrypt(pt, aad); return {std::move(c), t}; }
  template <typename G> static bool jump_in(G& g, uint64_t n) {
    if constexpr (requires { g.message_counter = n; }) { g.message_counter = n; return true; } else return false;
  }
  bool jump(uint64_t n) override { return jump_in(*g, n); }
};
static std::unique_ptr<Enc> make(cspan key, cspan iv) {
  if (key.size() == 16) return std::make_unique<Box<128>>(key, iv);
  return std::make_unique<Box<256>>(key, iv);
}
static bool same(const ref::Sealed& a, const ref::Sealed& b) { return a.ct == b.ct && a.tag == b.tag; }
// Whether setting the counter member really is jumping in the sequence (it is not part of the property).
static bool can_jump() {
  static int known = -1;
  if (known < 0) {
    bytes key(16, 7), iv(12, 9), pt(3, 1), aad(5, 2);
    known = jumps_work([&] { return make(key, iv); }, [](auto& o, uint64_t n) { return o->jump(n); }, [&](auto& o) { auto s = o->seal(pt, aad); s.ct.insert(s.ct.end(), s.tag.begin(), s.tag.end()); return s.ct; });
  }
  return known;
}
static size_t ivlen(Rng& r) {
  switch (r.below(6)) { case 0: return 8; case 1: return 16; case 2: return 13 + r.below(60); case 3: return r.chance(1, 4) ? 60 + r.below(2000) : 16 * r.range(1, 6); default: return 12; }
}
static size_t len(Rng& r) {
  switch (r.below(6)) { case 0: return r.below(5); case 1: return 16 * r.below(12); case 2: return 16 * r.range(1, 12) + r.below(3) - 1; case 3: return r.chance(1, 10) ? r.below(20000) : r.below(400); default: return r.below(100); }
}
static void verify(const ref::Sealed& got, const ref::Sealed& want, size_t ptlen, const std::function<std::string()>& ctx) {
  require(got.ct.size() == ptlen, "gcm-ciphertext-length", ctx);
  require_same(got.ct, want.ct, "gcm-ciphertext", ctx);
  require_same(got.tag, want.tag, "gcm-tag", ctx);
}

static void sequence(Rng& r, uint64_t i) {
  for (int rep = 0; rep < 12; rep++) {
    bytes key = r.data(i % 2 ? 16 : 32), iv = r.data(ivlen(r));
    auto e = make(key, iv);
    size_t msgs = r.range(1, 12);
    for (uint64_t n = 0; n < msgs; n++) {
      bytes pt = r.data(len(r)), aad = r.data(len(r));
      auto want = ref::gcm(key, iv, n, pt, aad);
      auto ctx = [&] { return "key=" + hex(key) + " iv=" + hex(iv) + " n=" + std::to_string(n) + " pt=" + hex(pt) + " aad=" + hex(aad); };
      if (n == 0 && iv.size() <= 128 && !same(want, ref::gcm_openssl(key, iv, pt, aad))) { fprintf(stderr, "model disagrees with OpenSSL: %s\n", ctx().c_str()); _exit(98); }
      if (r.chance(1, 4)) { e->move(r); count("objects copied, moved or assigned in a sequence"); }
      if (r.chance(1, 6)) {   // text and associated data in the same memory
        size_t o = r.below(pt.size() + 1); if (r.chance(1, 2)) o = 0;
        Guarded gp(pt); auto w = ref::gcm(key, iv, n, pt, cspan(pt).subspan(o)); verify(e->seal(gp.get(), gp.get().subspan(o)), w, pt.size(), ctx);
        count("texts that are their own associated data"); observed("shared", 1); continue;
      }
      Guarded gp(pt), ga(aad);
      verify(e->seal(gp.get(), ga.get()), want, pt.size(), ctx);
      observed("seq/" + std::to_string(key.size()) + "/" + std::to_string(iv.size() == 12 ? 0 : iv.size() % 16 + 1) + "/" + std::to_string(pt.size() % 16) + "/" + std::to_string(aad.size() % 16) + "/" + std::to_string(n > 0) + "/" + std::to_string((pt.size() > 16) + 2 * (aad.size() > 16)));
      count(iv.size() == 12 ? "messages with 12-byte nonce" : "messages with other IV sizes");
      sample([&] { return "AES-" + std::to_string(key.size() * 8) + " ivlen=" + std::to_string(iv.size()) + " n=" + std::to_string(n) + " ptlen=" + std::to_string(pt.size()) + " aadlen=" + std::to_string(aad.size()) + " tag=" + hex(want.tag); });
    }
  }
}
// Message numbers around every byte boundary of the 64-bit counter.
static void counters(Rng& r, uint64_t i) {
  if (!can_jump()) { count("counter jumps impossible in this implementation"); return; }
  std::vector<uint64_t> pts;
  for (int b = 1; b < 64; b++) { pts.push_back((1ull << b) - 2); }
  pts.push_back(~0ull - 3);
  for (uint64_t p : pts) {
    if (r.chance(1, 3)) p = r.u64() >> r.below(60);
    bytes key = r.raw(i % 2 ? 16 : 32), iv = r.data(r.chance(2, 3) ? 12 : ivlen(r));
    auto e = make(key, iv);
    if (r.chance(1, 2)) e->seal(r.raw(3), {});
    e->jump(p);
    if (r.chance(1, 4)) e->move(r);
    for (int k = 0; k < 4; k++) {
      if (p + k < p) break;
      bytes pt = r.raw(r.below(40)), aad = r.raw(r.below(20));
      verify(e->seal(pt, aad), ref::gcm(key, iv, p + k, pt, aad), pt.size(), [&] { return "message number " + std::to_string(p + k) + " key=" + hex(key) + " iv=" + hex(iv) + " pt=" + hex(pt); });
      observed("counter/" + std::to_string(64 - __builtin_clzll((p + k) | 1)) + "/" + std::to_string(iv.size() == 12));
      count("messages at jumped-to numbers");
    }
  }
}
// A really long sequence of short messages.
static void many(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(12);
  auto e = make(key, iv);
  uint64_t total = 70000 + r.below(100);
  for (uint64_t n = 0; n < total; n++) {
    bytes pt = {uint8_t(n), uint8_t(n >> 8)};
    auto got = e->seal(pt, {});
    bool look = (n & (n + 1)) == 0 || (n & 0xff) >= 0xfe || (n & 0xff) == 0 || n > 65500 || r.chance(1, 50);
    if (look) {
      bytes nonce = iv;
      for (int b = 0; b < 8; b++) nonce[4 + b] ^= uint8_t(n >> (56 - 8 * b));
      verify(got, ref::gcm_openssl(key, nonce, pt, {}), 2, [&] { return "message number " + std::to_string(n) + " reached by counting, key=" + hex(key) + " iv=" + hex(iv); });
    }
    observed(look ? "many/" + std::to_string(n) : "");
  }
  count("messages in long sequences", total);
}
// Derived counter blocks placed just below the wrap of each counter byte.
static void wraps(Rng& r, uint64_t i) {
  for (int k = 0; k < 40; k++) {
    bytes key = r.raw(i % 2 ? 16 : 32);
    uint32_t low = (k % 5 == 0) ? 0xffffffffu : k % 5 == 1 ? 0x00ffffffu : k % 5 == 2 ? 0xffffu : k % 5 == 3 ? 0xffu : r.u32() | (0xffffffffu >> (8 * r.below(4)));
    low -= r.below(6);
    bytes top = r.chance(1, 2) ? bytes(16, 0xff) : r.data(16);
    ref::u128 want = (ref::load(top.data()) & ~(ref::u128)0xffffffff) | low;
    bytes iv = ref::iv_for_counter_block(key, want);
    if (ref::j0(key, iv) != want) _exit(98);
    auto e = make(key, iv);
    for (uint64_t n = 0; n < 3; n++) {
      bytes pt = r.raw(16 * 12 + r.below(16)), aad = r.raw(r.below(40));
      auto w = ref::gcm(key, iv, n, pt, aad);
      if (n == 0 && !same(w, ref::gcm_openssl(key, iv, pt, aad))) _exit(98);
      verify(e->seal(pt, aad), w, pt.size(), [&] { return "counter block low word " + std::to_string(low) + " key=" + hex(key) + " iv=" + hex(iv) + " n=" + std::to_string(n); });
      observed("wrap/" + std::to_string(low >> 8) + "/" + std::to_string(low & 15) + "/" + std::to_string(n));
      count("messages crossing a counter wrap");
    }
  }
}
struct Repeated {
  static constexpr size_t unit = 8u << 20; uint8_t* p; size_t n;
  Repeated(Rng& r, size_t len) {
    n = (len + unit - 1) / unit * unit;
    int fd = memfd_create("vf", 0); bytes d = r.raw(unit);
    if (fd < 0 || write(fd, d.data(), unit) != (ssize_t)unit) _exit(98);
    p = (uint8_t*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(98);
    for (size_t o = 0; o < n; o += unit) if (mmap(p + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(98);
    close(fd);
  }
  ~Repeated() { munmap(p, n); }
};
// Long inputs: text past 2^24 blocks and 2^32 bits, associated data past 2^32 bits, text past 2^16 blocks.
static void large(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(12);
  size_t pl = 0, al = 0;
  switch (i % 4) { case 0: pl = (1ull << 29) + 5; break; case 1: al = (1ull << 29) + 21; pl = 40; break; case 2: pl = (16u << 16) + 100; al = 70000; break; default: pl = (3u << 20) + 7; al = (1u << 20) + 1; }
  Repeated a(r, pl ? pl : 1), b(r, al ? al : 1);
  auto e = make(key, iv);
  auto got = e->seal(cspan(a.p, pl), cspan(b.p, al));
  auto want = ref::gcm_openssl(key, iv, cspan(a.p, pl), cspan(b.p, al));
  verify(got, want, pl, [&] { return "large message pt=" + std::to_string(pl) + " aad=" + std::to_string(al); });
  observed("large/" + std::to_string(i % 4));
  count("bytes in large messages", pl + al);
}
// Texts, associated data and IVs of every order of size, at several message numbers of one object.
static void sizes(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(r.chance(1, 3) ? biglen(r, 15) : r.chance(1, 2) ? ivlen(r) : 12);
  auto e = make(key, iv);
  for (uint64_t n = 0; n < 8; n++) {
    unsigned w = (unsigned)r.below(4);
    bytes pt = r.raw(w == 0 ? len(r) : biglen(r, n ? 19 : 21)), aad = r.raw(w == 1 ? biglen(r, 19) : len(r));
    auto want = ref::gcm(key, iv, n, pt, aad);
    Guarded gp(pt, r.chance(1, 2)), ga(aad, r.chance(1, 2));
    verify(e->seal(gp.get(), ga.get()), want, pt.size(), [&] { return "random text of " + std::to_string(pt.size()) + " bytes, associated data of " + std::to_string(aad.size()) + ", IV of " + std::to_string(iv.size()) + ", n=" + std::to_string(n) + " key=" + hex(key); });
    observed("size/" + std::to_string(64 - __builtin_clzll(pt.size() | 1)) + "/" + std::to_string(64 - __builtin_clzll(aad.size() | 1)) + "/" + std::to_string(64 - __builtin_clzll(iv.size())) + "/" + std::to_string(pt.size() % 16));
    count("messages of 2 KiB to 2 MiB");
  }
}
VF_MAIN({ {"sizes", 160, 2000, sizes}, {"large", 4, 16, large, 90}, {"many", 2, 8, many}, {"wraps", 96, 1000, wraps}, {"counters", 64, 600, counters}, {"sequence", 900, 12000, sequence} })

// C10: CTR mode against the counter-block model on OpenSSL's AES.
#include "gcmref.h"
#include "relocate.h"
#include <caligo/aes.h>
#include <caligo/ctr.h>
using namespace vf;

struct C { virtual ~C() = default; virtual void move(Rng& r) = 0; virtual void enc(std::span<uint8_t> d) = 0; virtual void dec(std::span<uint8_t> d) = 0; virtual bytes stream(size_t n) = 0; virtual bool jump(uint64_t n) = 0; };
template <size_t bits> struct Box final : C {
  using G = Caligo::CTR<Caligo::AES<bits>>;
  static std::unique_ptr<G> fresh(cspan key, cspan iv) { return std::make_unique<G>(Caligo::key_iv_pair<Caligo::AES<bits>>(key, iv)); }
  std::unique_ptr<G> c;
  Box(cspan key, cspan iv) : c(fresh(key, iv)) {}
  void move(Rng& r) override { relocate(c, fresh(r.raw(bits / 8), r.raw(16)), (unsigned)r.below(4)); }
  void enc(std::span<uint8_t> d) override { c->Encrypt(d); }
  void dec(std::span<uint8_t> d) override { c->Decrypt(d); }
  bytes stream(size_t n) override { return c->GenerateKeystream(n); }
  template <typename G> static bool jump_in(G& g, uint64_t n) { if constexpr (requires { g.message_counter = n; }) { g.message_counter = n; return true; } else return false; }
  bool jump(uint64_t n) override { return jump_in(*c, n); }
};
static std::unique_ptr<C> make(size_t bits, cspan key, cspan iv) {
  if (bits == 128) return std::make_unique<Box<128>>(key, iv);
  return std::make_unique<Box<256>>(key, iv);
}
static bytes model(cspan key, cspan iv, uint64_t n, cspan data) { return ref::ctr32(key, ref::inc32(ref::with_message_number(ref::load(iv.data()), n), 1), data); }
static bool can_jump() {
  static int known = -1;
  if (known < 0) {
    bytes key(16, 3), iv(16, 4);
    known = jumps_work([&] { return make(128, key, iv); }, [](auto& o, uint64_t n) { return o->jump(n); }, [](auto& o) { return o->stream(20); });
  }
  return known;
}
static size_t len(Rng& r) { switch (r.below(5)) { case 0: return r.below(3); case 1: return 16 * r.below(12); case 2: return 16 * r.range(1, 12) + r.below(3) - 1; case 3: return r.chance(1, 10) ? r.below(30000) : r.below(500); default: return r.below(80); } }

static void messages(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256;
  for (int rep = 0; rep < 12; rep++) {
    bytes key = r.data(bits / 8), iv = r.data(16);
    if (r.chance(1, 2)) { uint32_t low = (0xffffffffu >> (8 * r.below(4))) - r.below(8); iv[12] = low >> 24; iv[13] = low >> 16; iv[14] = low >> 8; iv[15] = low; }
    if (r.chance(1, 4)) std::fill(iv.begin(), iv.begin() + 12, 0xff);
    auto e = make(bits, key, iv), d = make(bits, key, iv);
    size_t msgs = r.range(1, 10);
    for (uint64_t n = 0; n < msgs; n++) {
      bytes pt = r.data(len(r)), want = model(key, iv, n, pt);
      auto ctx = [&] { return "key=" + hex(key) + " iv=" + hex(iv) + " n=" + std::to_string(n) + " pt=" + hex(pt); };
      if (r.chance(1, 4)) { e->move(r); count("objects copied, moved or assigned in a sequence"); }
      if (r.chance(1, 8)) d->move(r);
      Guarded g(pt);
      switch (r.below(3)) {
        case 0: { bytes ks = e->stream(pt.size()); require(ks.size() == pt.size(), "ctr-keystream-length", ctx); for (size_t k = 0; k < ks.size(); k++) g.p[k] ^= ks[k]; count("keystreams"); break; }
        case 1: e->dec(g.mut()); count("processed with Decrypt"); break;
        default: e->enc(g.mut()); count("processed with Encrypt");
      }
      require_same(g.get(), want, "ctr-output", ctx);
      d->dec(g.mut());
      require_same(g.get(), pt, "ctr-roundtrip", ctx);
      observed("ctr" + std::to_string(bits) + "/" + std::to_string(pt.size() % 16) + "/" + std::to_string(pt.size() / 16 > 5) + "/" + std::to_string(n) + "/" + std::to_string(iv[15]) + std::to_string(iv[14] == 255));
      sample([&] { return "AES-" + std::to_string(bits) + " iv=" + hex(iv) + " n=" + std::to_string(n) + " len=" + std::to_string(pt.size()); });
    }
  }
}
static void counters(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256;
  if (can_jump()) for (int b = 1; b < 64; b++) {
    bytes key = r.raw(bits / 8), iv = r.data(16);
    auto e = make(bits, key, iv);
    uint64_t p = (1ull << b) - 2;
    e->jump(p);
    for (int k = 0; k < 4; k++) {
      bytes pt = r.raw(r.below(60)), c = pt;
      e->enc(c);
      require_same(c, model(key, iv, p + k, pt), "ctr-output", [&] { return "message number " + std::to_string(p + k) + " iv=" + hex(iv); });
      observed("jump/" + std::to_string(b)); count("messages at jumped-to numbers");
    }
  }
  bytes key = r.raw(bits / 8), iv = r.raw(16);
  auto e = make(bits, key, iv);
  for (uint64_t n = 0; n < 66000; n++) {
    bytes c = {1, 2};
    e->enc(c);
    if ((n & 255) < 2 || n > 65530) { bytes pt = {1, 2}; require_same(c, model(key, iv, n, pt), "ctr-output", [&] { return "message number " + std::to_string(n) + " reached by counting, iv=" + hex(iv); }); observed("many/" + std::to_string(n)); }
  }
  count("messages in long sequences", 66000);
}
static void large(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256, n = i % 3 == 0 ? (260u << 20) + 3 : (16u << 16) * 3 + 11;
  bytes key = r.raw(bits / 8), iv = r.raw(16), d = r.raw(n), c = d;
  auto e = make(bits, key, iv);
  e->enc(c);
  require(c == model(key, iv, 0, d), "ctr-output", [&] { return "message of " + std::to_string(n) + " bytes"; });
  observed("large/" + std::to_string(i % 6)); count("bytes in large messages", n);
}
static void sizes(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256;
  for (size_t k = 0; k <= 66; k++) for (size_t v = 0; v <= 34; v++) {
    if (k == bits / 8 && v == 16) continue;
    if (k != bits / 8 && v != 16 && !r.chance(1, 8)) continue;
    bool threw = false;
    bytes key = r.raw(k), iv = r.raw(v);
    try { make(bits, key, iv); } catch (const std::exception&) { threw = true; }
    require(threw, "ctr-wrong-size-accepted", [&] { return "AES-" + std::to_string(bits) + " key of " + std::to_string(k) + " and IV of " + std::to_string(v) + " bytes"; });
    observed("size/" + std::to_string(k) + "/" + std::to_string(v)); count("wrong sizes refused");
  }
}
// Messages of every order of size through all three functions of one object.
static void big(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256;
  bytes key = r.raw(bits / 8), iv = r.raw(16);
  if (r.chance(1, 2)) { uint32_t low = (0xffffffffu >> (8 * r.below(4))) - (uint32_t)r.below(1u << r.below(16)); iv[12] = low >> 24; iv[13] = low >> 16; iv[14] = low >> 8; iv[15] = low; }
  auto e = make(bits, key, iv);
  for (uint64_t n = 0; n < 8; n++) {
    bytes pt = r.raw(r.chance(1, 5) ? len(r) : biglen(r, n ? 20 : 22)), want = model(key, iv, n, pt);
    Guarded g(pt, r.chance(1, 2));
    unsigned f = (unsigned)r.below(3);
    auto ctx = [&] { return "random message of " + std::to_string(pt.size()) + " bytes through function " + std::to_string(f) + ", n=" + std::to_string(n) + " key=" + hex(key) + " iv=" + hex(iv); };
    if (f == 0) { bytes ks = e->stream(pt.size()); require(ks.size() == pt.size(), "ctr-keystream-length", ctx); for (size_t k = 0; k < ks.size(); k++) g.p[k] ^= ks[k]; }
    else if (f == 1) e->dec(g.mut()); else e->enc(g.mut());
    require_same(g.get(), want, "ctr-output", ctx);
    observed("big/" + std::to_string(64 - __builtin_clzll(pt.size() | 1)) + "/" + std::to_string(pt.size() % 16) + "/" + std::to_string(f)); count("messages of 2 KiB to 4 MiB");
  }
}
VF_MAIN({ {"big", 120, 1500, big}, {"large", 3, 30, large, 90}, {"counters", 8, 60, counters}, {"sizes", 4, 20, sizes}, {"messages", 1600, 15000, messages} })

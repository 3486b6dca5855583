// C05: HMAC against OpenSSL's.
#include "hashes.h"
#include <caligo/hkdf.h>
using namespace vf;

using Fn = bytes (*)(cspan text, cspan key);
struct H { const char* name; size_t block, out; Fn f; };
static const std::vector<H>& all() {
  static const std::vector<H> v = [] {
    std::vector<H> v;
    for (size_t i = 0; i < kHashes; i++) with_hash(i, [&]<typename T>() {
      v.push_back({HashInfo<T>::name, HashInfo<T>::block, HashInfo<T>::out, [](cspan t, cspan k) { auto a = Caligo::HMAC<T>(t, k); return bytes(a.begin(), a.end()); }});
    });
    return v;
  }();
  return v;
}
static void one(Rng& r, const H& h, size_t klen, size_t mlen) {
  bytes key = r.data(klen), msg = r.data(mlen);
  bytes k0 = key, m0 = msg;
  bytes want = ref::hmac(h.name, key, msg);
  require_same(h.f(msg, key), want, std::string("hmac-") + h.name, [&] { return "keylen=" + std::to_string(klen) + " msglen=" + std::to_string(mlen) + " key=" + hex(key) + " msg=" + hex(msg); });
  if (klen == mlen || mlen < 200) {   // text and key the same or overlapping memory
    size_t o = msg.size() / 3; cspan s(msg);
    require_same(h.f(s, s), ref::hmac(h.name, msg, msg), std::string("hmac-") + h.name, [&] { return "text and key the same memory, " + hex(msg); });
    require_same(h.f(s.subspan(o), s.first(s.size() - o)), ref::hmac(h.name, s.first(s.size() - o), s.subspan(o)), std::string("hmac-") + h.name, [&] { return "text and key overlapping in memory, " + hex(msg); });
    require(msg == m0, "hmac-input-modified", [&] { return h.name; }); count("overlapping texts and keys", 2);
  }
  require(key == k0 && msg == m0, "hmac-input-modified", [&] { return h.name; });
  const char* kc = klen == 0 ? "empty" : klen < h.out ? "short" : klen < h.block ? "below" : klen == h.block ? "equal" : klen == h.block + 1 ? "above" : "long";
  observed(std::string(h.name) + "/" + kc + "/" + std::to_string(klen % h.block) + "/" + std::to_string(mlen % h.block));
  count(std::string("keys ") + kc);
  sample([&] { return std::string(h.name) + " key=" + hex(key, 40) + " msglen=" + std::to_string(mlen) + " -> " + hex(want); });
}
static void keylens(Rng& r, uint64_t i) {
  const H& h = all()[i % kHashes];
  for (size_t k = 0; k <= 3 * h.block + 2; k++) { one(r, h, k, r.below(3 * h.block)); one(r, h, k, length(r, h.block, 3000)); }
}
static void random_inputs(Rng& r, uint64_t i) {
  const H& h = all()[i % kHashes];
  for (int k = 0; k < 300; k++) one(r, h, r.chance(1, 2) ? h.block + r.below(5) - 2 : length(r, h.block, 20000), length(r, h.block, 50000));
}
static void big(Rng& r, uint64_t i) {
  const H& h = all()[i % kHashes];
  for (int k = 0; k < 6; k++) {
    size_t kl = r.chance(1, 2) ? biglen(r, k ? 20 : 23) : length(r, h.block, 3000), ml = r.chance(2, 3) ? biglen(r, k ? 20 : 23) : length(r, h.block, 3000);
    bytes key = r.raw(kl), msg = r.raw(ml);
    require_same(h.f(msg, key), ref::hmac(h.name, key, msg), std::string("hmac-") + h.name, [&] { return "keylen=" + std::to_string(kl) + " msglen=" + std::to_string(ml) + " of random bytes"; });
    observed(std::string("big/") + h.name + "/" + std::to_string(64 - __builtin_clzll(kl | 1)) + "/" + std::to_string(64 - __builtin_clzll(ml | 1)));
    count("keys or texts of 2 KiB to 8 MiB");
  }
}
// Keys and texts of every order of size up to 64 MiB for every hash.
static void whole(Rng& r, uint64_t i) {
  const H& h = all()[i % kHashes];
  unsigned b = 16 + unsigned(i / kHashes) % 11;
  for (int w = 0; w < 2; w++) {
    size_t big = ((size_t)1 << b) + r.below(400) - 20;
    bytes key = r.raw(w ? r.below(2 * h.block) : big), msg = r.raw(w ? big : r.below(400));
    require_same(h.f(msg, key), ref::hmac(h.name, key, msg), std::string("hmac-") + h.name, [&] { return "keylen=" + std::to_string(key.size()) + " msglen=" + std::to_string(msg.size()) + " of random bytes"; });
    observed(std::string("whole/") + h.name + "/" + std::to_string(b) + "/" + std::to_string(w));
    count(w ? "texts of every order of size up to 64 MiB" : "keys of every order of size up to 64 MiB");
  }
}
VF_MAIN({ {"whole", 110, 220, whole}, {"big", 320, 800, big}, {"keylens", 120, 200, keylens}, {"random", 1200, 8000, random_inputs} })
